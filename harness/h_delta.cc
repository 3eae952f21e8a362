// C12 delta round trip, C13 chunk independence, C14 hostile deltas, C33 delta size.
#include "delta.hh"
#include "model.hh"
extern "C" {
#include <bpak/merkle.h>
#include <bpak/crypto.h>
}
using namespace pbt;
using namespace delta;

static size_t maxsz(Case &c) { return c.thorough ? 60000 : 9000; }

// ------------------------------------------------------------------ C12
static void roundtrip(Case &c)
{
    Gen &g = c.g;
    Pair p = delta::make_pair(c, g, maxsz(c));
    int comp = pick_comp(g);
    c.label(comp_name(comp));
    c.log("compression %s", comp_name(comp));
    Exact o(p.o), t(p.t);
    Env e;
    e.out_off = pick_off(g);
    ssize_t r = diff(o, t, comp, e);
    CHECK(r >= 0, "computing the delta failed (%zd)", r);
    CHECK(e.bad.empty(), "while computing the delta: %s", e.bad.c_str());
    CHECK((size_t)r == e.out.size(), "delta length reported as %zd but %zu bytes were written", r, e.out.size());
    CHECK(o.same(p.o) && t.same(p.t), "computing the delta changed its inputs");
    c.log(", delta %zu bytes\n", e.out.size());
    if (p.o.size() >= 16 && p.t.size() >= 16 && p.o != p.t)
        c.nontrivial();
    if (p.o.empty() || p.t.empty())
        c.label("empty side");
    // the delta, decoded by independent code, means the target
    Bytes raw, got;
    CHECK(plain(e.out, comp, raw), "the delta is not a valid %s stream", comp_name(comp));
    size_t blocks = 0;
    CHECK(ref_apply(raw, p.o, got, &blocks), "the delta is malformed (reference decoder)");
    CHECK(got == p.t, "delta decoded by the reference gives another target: %s", diff_desc(got, p.t).c_str());
    if (blocks > 1)
        c.label("several control blocks");
    // applied by the code under test
    Env a;
    a.origin = &p.o;
    a.origin_off = pick_off(g);
    a.out_off = pick_off(g);
    std::vector<size_t> ch = cuts(g, e.out.size(), false);
    size_t bl = pick_buf(g);
    c.log("applied in %zu chunks, buffer %zu\n", ch.size(), bl);
    Result q = patch(e.out, e.out.size(), comp, bl, ch, a);
    CHECK(a.bad.empty(), "while applying the delta: %s", a.bad.c_str());
    CHECK(q.ok, "applying the delta failed (write %d, final %zd)", q.wrc, q.fin);
    CHECK(a.out == p.t, "applying the delta gives another target: %s", diff_desc(a.out, p.t).c_str());
    CHECK((size_t)q.fin == p.t.size(), "length reported as %zd, target has %zu bytes", q.fin, p.t.size());
    // same inputs, same delta
    if (g.flip()) {
        Env e2;
        ssize_t r2 = diff(o, t, comp, e2);
        CHECK(r2 == r && e2.out == e.out, "computing the same delta again gives other bytes: %s", diff_desc(e2.out, e.out).c_str());
    }
}

// every pair of short strings over a tiny alphabet
static void small_pairs(Case &c)
{
    Gen &g = c.g;
    Pair p;
    unsigned k = (unsigned)g.range(1, 3);
    size_t no = (size_t)g.range(0, 40), nt = (size_t)g.range(0, 40);
    for (size_t i = 0; i < no; i++)
        p.o.push_back((uint8_t)('a' + g.below(k)));
    for (size_t i = 0; i < nt; i++)
        p.t.push_back((uint8_t)('a' + g.below(k)));
    c.log("origin '%s' target '%s'\n", std::string(p.o.begin(), p.o.end()).c_str(), std::string(p.t.begin(), p.t.end()).c_str());
    if (no > 4 && nt > 4)
        c.nontrivial();
    int comp = (int)g.below(2);
    Bytes d = diff_ok(p.o, p.t, comp), raw, got;
    plain(d, comp, raw);
    CHECK(ref_apply(raw, p.o, got) && got == p.t, "delta decoded by the reference gives another target: %s", diff_desc(got, p.t).c_str());
    Env a;
    a.origin = &p.o;
    Result q = patch(d, d.size(), comp, (size_t)(2 * g.range(1, 20)), cuts(g, d.size(), false), a);
    CHECK(q.ok && a.out == p.t && (size_t)q.fin == p.t.size() && a.bad.empty(), "applying failed (write %d, final %zd): %s; %s", q.wrc, q.fin,
          diff_desc(a.out, p.t).c_str(), a.bad.c_str());
}

// ------------------------------------------------------------------ mutations shared by C13/C14
static Bytes mutate(Case &c, Gen &g, Bytes d, int comp, const Bytes &o)
{
    switch (g.weighted({3, 3, 2, 2, 2, 2})) {
    case 0: { // flip bytes
        for (size_t k = (size_t)g.range(1, 4); k && !d.empty(); k--)
            d[g.below(d.size())] ^= (uint8_t)(1 + g.below(255));
        c.log("mutation: bytes flipped\n");
        break;
    }
    case 1: { // interesting control values (uncompressed), or truncated
        if (comp == 0 && d.size() >= 24) {
            static const int64_t v[] = {-1, 0, 1, INT64_MAX, -INT64_MAX, 1ll << 31, -(1ll << 31), 1ll << 32, 24, -24, 4096, 1ll << 62};
            size_t f = (size_t)g.below(3);
            Bytes x;
            put_ctl(x, v[g.below(12)]);
            std::copy(x.begin(), x.end(), d.begin() + (long)(8 * f));
            c.log("mutation: control field %zu = %lld\n", f, (long long)ctl(x.data()));
            break;
        }
    } // fall through
    case 2:
        d.resize((size_t)g.below(d.size() + 1));
        c.log("mutation: truncated to %zu\n", d.size());
        break;
    case 3: { // appended bytes
        Bytes x = g.content((size_t)g.range(1, 60));
        d.insert(d.end(), x.begin(), x.end());
        c.log("mutation: %zu bytes appended\n", x.size());
        break;
    }
    case 4: { // arbitrary stream
        d = g.content((size_t)g.logsize(2000));
        c.log("mutation: %zu arbitrary bytes\n", d.size());
        break;
    }
    default: { // hand-made control blocks, then compressed as required
        static const int64_t v[] = {0, 1, 2, 10, 100, 1000, -1, -2, -10, -1000, INT64_MAX, -INT64_MAX, 1ll << 31, 1ll << 40, 256, 4096};
        Bytes raw;
        size_t nb = (size_t)g.range(1, 4);
        for (size_t b = 0; b < nb; b++) {
            int64_t dc, ec, adj;
            dc = g.chance(75) ? (int64_t)g.below(60) : v[g.below(16)];
            ec = g.chance(75) ? (int64_t)g.below(60) : v[g.below(16)];
            adj = g.chance(50) ? (int64_t)g.below(2 * o.size() + 40) - (int64_t)o.size() - 20 : v[g.below(16)];
            put_ctl(raw, dc);
            put_ctl(raw, ec);
            put_ctl(raw, adj);
            c.log("block %lld %lld %lld; ", (long long)dc, (long long)ec, (long long)adj);
            Bytes x = g.content((size_t)(std::max<int64_t>(0, std::min<int64_t>(dc, 300)) + std::max<int64_t>(0, std::min<int64_t>(ec, 300))));
            raw.insert(raw.end(), x.begin(), x.end());
        }
        c.log("\n");
        if (comp == 0)
            d = raw;
        else if (comp == 1) { // literals only
            Bytes out;
            unsigned acc = 0, nb2 = 0;
            auto put = [&](unsigned val, unsigned n) {
                for (unsigned i = n; i--;) {
                    acc = acc << 1 | ((val >> i) & 1);
                    if (++nb2 == 8) {
                        out.push_back((uint8_t)acc);
                        acc = nb2 = 0;
                    }
                }
            };
            for (uint8_t x : raw) {
                put(1, 1);
                put(x, 8);
            }
            while (nb2)
                put(0, 1);
            d = out;
        } else {
            Bytes out(raw.size() + 4096);
            size_t pos = 0;
            lzma_easy_buffer_encode(1, LZMA_CHECK_CRC32, nullptr, raw.data(), raw.size(), out.data(), &pos, out.size());
            out.resize(pos);
            d = out;
        }
    }
    }
    return d;
}

// ------------------------------------------------------------------ C13
static void patch_chunks(Case &c)
{
    Gen &g = c.g;
    Pair p = delta::make_pair(c, g, maxsz(c) / 2);
    int comp = pick_comp(g);
    Bytes d = diff_ok(p.o, p.t, comp);
    bool mut = g.chance(40);
    if (mut)
        d = mutate(c, g, d, comp, p.o);
    size_t ann = d.size();
    if (comp == 1 && g.chance(10))
        ann += (size_t)g.range(1, 50); // stream ends early
    c.label(strf("%s%s", comp_name(comp), mut ? " damaged" : ""));
    Env a;
    a.origin = &p.o;
    a.limit = 1 << 20;
    a.origin_off = pick_off(g);
    a.out_off = pick_off(g);
    Result ra = patch(d, ann, comp, 8192, {d.size()}, a);
    CHECK(a.bad.empty(), "in one piece: %s", a.bad.c_str());
    for (int k = 0; k < 3; k++) {
        Env b;
        b.origin = &p.o;
        b.limit = 1 << 20;
        b.origin_off = a.origin_off;
        b.out_off = a.out_off;
        std::vector<size_t> ch = cuts(g, d.size());
        size_t bl = pick_buf(g);
        c.log("delta %zu bytes (%s) in %zu chunks, buffer %zu\n", d.size(), comp_name(comp), ch.size(), bl);
        if (ch.size() > 2 && d.size() > 24)
            c.nontrivial();
        Result rb = patch(d, ann, comp, bl, ch, b);
        CHECK(b.bad.empty(), "in chunks: %s", b.bad.c_str());
        CHECK(ra.ok == rb.ok, "in one piece: %s (%d, %zd); in chunks: %s (%d, %zd)", ra.ok ? "success" : "failure", ra.wrc, ra.fin,
              rb.ok ? "success" : "failure", rb.wrc, rb.fin);
        if (ra.ok) {
            CHECK(a.out == b.out, "output depends on chunking: %s", diff_desc(b.out, a.out).c_str());
            CHECK(ra.fin == rb.fin, "length depends on chunking: %zd, %zd", ra.fin, rb.fin);
            CHECK((size_t)rb.fin == b.out.size(), "length reported as %zd, %zu bytes written", rb.fin, b.out.size());
        }
    }
    if (!mut && ann == d.size())
        CHECK(ra.ok && a.out == p.t, "applying the delta failed (%d, %zd) or gave other bytes: %s", ra.wrc, ra.fin, diff_desc(a.out, p.t).c_str());
}

struct Mem { // random access store
    Bytes b;
    off_t base;
    size_t lo = (size_t)-1, hi = 0;
    std::string bad;
    uint64_t calls = 0, fail_at = 0;
};
static ssize_t mem_wr(off_t o, uint8_t *p, size_t n, void *u)
{
    Mem *m = (Mem *)u;
    if (o < m->base || (uint64_t)(o - m->base) + n > m->b.size()) {
        m->bad = strf("write of %zu bytes at offset %lld outside the tree [%lld,+%zu)", n, (long long)o, (long long)m->base, m->b.size());
        return -1;
    }
    memcpy(&m->b[(size_t)(o - m->base)], p, n);
    return (ssize_t)n;
}
static ssize_t mem_rd(off_t o, uint8_t *p, size_t n, void *u)
{
    Mem *m = (Mem *)u;
    if (o < m->base || (uint64_t)(o - m->base) + n > m->b.size()) {
        m->bad = strf("read of %zu bytes at offset %lld outside the tree", n, (long long)o);
        return -1;
    }
    memcpy(p, &m->b[(size_t)(o - m->base)], n);
    return (ssize_t)n;
}
static void merkle_chunks(Case &c)
{
    Gen &g = c.g;
    size_t blocks = g.chance(15) ? (size_t)g.range(120, 140) : (size_t)g.range(1, 12);
    Bytes d = g.content(blocks * 4096), salt = g.content((size_t)g.range(0, 32));
    ref::Tree want = ref::verity(d, salt);
    std::vector<size_t> ch = cuts(g, d.size());
    off_t off = pick_off(g);
    c.log("%zu blocks, salt %zu bytes, %zu chunks, offset %lld\n", blocks, salt.size(), ch.size(), (long long)off);
    if (ch.size() > 2)
        c.nontrivial();
    Mem m;
    m.base = off;
    m.b.assign(want.tree.size(), 0xCC);
    bool zf = g.flip();
    if (!zf)
        std::fill(m.b.begin(), m.b.end(), 0);
    bpak_merkle_context ctx;
    CHECK(bpak_merkle_init(&ctx, d.size(), salt.data(), salt.size(), mem_wr, mem_rd, off, zf, &m) == BPAK_OK, "init failed %s", m.bad.c_str());
    size_t pos = 0;
    for (size_t n : ch) {
        Exact e(Bytes(d.begin() + (long)pos, d.begin() + (long)(pos + n)));
        int rc = bpak_merkle_write_chunk(&ctx, e.p, n);
        CHECK(rc == BPAK_OK, "write_chunk of %zu bytes at %zu failed (%d) %s", n, pos, rc, m.bad.c_str());
        pos += n;
    }
    bpak_merkle_hash_t root;
    int rc = bpak_merkle_finish(&ctx, root);
    CHECK(rc == BPAK_OK && m.bad.empty(), "finish failed (%d) %s", rc, m.bad.c_str());
    CHECK(m.b == want.tree, "tree differs: %s", diff_desc(m.b, want.tree).c_str());
    CHECK(Bytes(root, root + 32) == want.root, "root hash differs");
}
static void hash_chunks(Case &c)
{
    Gen &g = c.g;
    Bytes d = g.content((size_t)g.edge_size(9000));
    int kind = (int)g.range(1, 3);
    std::vector<size_t> ch = cuts(g, d.size());
    c.log("hash kind %d over %zu bytes in %zu chunks\n", kind, d.size(), ch.size());
    if (ch.size() > 1)
        c.nontrivial();
    bpak_hash_context h;
    CHECK(bpak_hash_init(&h, (enum bpak_hash_kind)kind) == BPAK_OK, "hash init failed");
    size_t pos = 0;
    for (size_t n : ch) {
        Exact e(Bytes(d.begin() + (long)pos, d.begin() + (long)(pos + n)));
        CHECK(bpak_hash_update(&h, e.p, n) == BPAK_OK, "hash update of %zu bytes failed", n);
        pos += n;
    }
    Bytes want = ref::hash(kind, d);
    Exact out(want.size());
    size_t len = 0;
    int rc = bpak_hash_final(&h, out.p, want.size(), &len);
    bpak_hash_free(&h);
    CHECK(rc == BPAK_OK, "hash final failed (%d)", rc);
    CHECK(out.same(want), "hash of kind %d over %zu bytes in %zu chunks is wrong", kind, d.size(), ch.size());
    CHECK(len == want.size(), "hash length reported as %zu", len);
}

// ------------------------------------------------------------------ C14
static void hostile(Case &c)
{
    Gen &g = c.g;
    Pair p = delta::make_pair(c, g, g.chance(20) ? 4000 : 300);
    int comp = pick_comp(g);
    Bytes d = diff_ok(p.o, p.t, comp);
    size_t nm = (size_t)g.range(1, 3);
    for (size_t i = 0; i < nm; i++)
        d = mutate(c, g, d, comp, p.o);
    if (d != diff_ok(p.o, p.t, comp) && d.size() >= 24)
        c.nontrivial();
    size_t ann = d.size();
    if (g.chance(20)) {
        static const size_t v[] = {0, 1, 24, 1u << 20, (size_t)-1, (size_t)1 << 63};
        ann = v[g.below(6)];
    }
    size_t bl = g.chance(10) ? 0 : g.chance(5) ? 1 : pick_buf(g);
    std::vector<size_t> ch = cuts(g, d.size());
    c.label(comp_name(comp));
    c.log("%s delta of %zu bytes, announced %zu, buffer %zu, %zu chunks\n", comp_name(comp), d.size(), ann, bl, ch.size());
    Env e;
    e.origin = &p.o;
    e.limit = 1 << 20;
    e.origin_off = pick_off(g);
    e.out_off = pick_off(g);
    Result r = patch(d, ann, comp, bl, ch, e);
    CHECK(e.bad.empty(), "%s", e.bad.c_str());
    if (r.ok) {
        CHECK((size_t)r.fin == e.out.size(), "length reported as %zd, %zu bytes written", r.fin, e.out.size());
        c.label("accepted");
    }
}

// ------------------------------------------------------------------ C33
static void sizes(Case &c)
{
    Gen &g = c.g;
    int comp = (int)g.weighted({3, 4, 1});
    size_t n = (size_t)g.range(2000, c.thorough ? 40000 : 12000);
    Rng r(g.draw(1u << 30));
    Bytes o(n);
    for (auto &x : o)
        x = (uint8_t)r.next(); // incompressible, so only the delta can make it small
    struct B {
        uint8_t v;
        bool fresh;
        size_t src;
    };
    std::vector<B> tb(n);
    for (size_t i = 0; i < n; i++)
        tb[i] = {o[i], false, i};
    size_t edits = (size_t)g.range(0, 8);
    std::string s;
    for (size_t i = 0; i < edits; i++) {
        size_t p = (size_t)g.below(tb.size() + 1);
        switch (g.below(5)) {
        case 0: {
            size_t k = std::min<size_t>((size_t)(g.chance(30) ? g.range(33, 800) : g.range(1, 32)), tb.size() - p);
            for (size_t j = 0; j < k; j++)
                tb[p + j] = {(uint8_t)r.next(), true, 0};
            s += strf("o%zu ", k);
            break;
        }
        case 1: {
            size_t k = (size_t)g.range(1, 400);
            std::vector<B> x(k);
            for (auto &y : x)
                y = {(uint8_t)r.next(), true, 0};
            tb.insert(tb.begin() + (long)p, x.begin(), x.end());
            s += strf("i%zu ", k);
            break;
        }
        case 2: {
            size_t k = std::min<size_t>((size_t)g.range(1, 400), tb.size() - p);
            tb.erase(tb.begin() + (long)p, tb.begin() + (long)(p + k));
            s += strf("d%zu ", k);
            break;
        }
        case 3: { // move
            size_t k = std::min<size_t>((size_t)g.range(100, 1500), tb.size() - p);
            std::vector<B> x(tb.begin() + (long)p, tb.begin() + (long)(p + k));
            tb.erase(tb.begin() + (long)p, tb.begin() + (long)(p + k));
            tb.insert(tb.begin() + (long)g.below(tb.size() + 1), x.begin(), x.end());
            s += strf("m%zu ", k);
            break;
        }
        default: { // repeat
            size_t k = std::min<size_t>((size_t)g.range(100, 1500), tb.size() - p);
            std::vector<B> x(tb.begin() + (long)p, tb.begin() + (long)(p + k));
            tb.insert(tb.begin() + (long)g.below(tb.size() + 1), x.begin(), x.end());
            s += strf("r%zu ", k);
        }
        }
    }
    Bytes t;
    size_t fresh = 0; // target bytes that were not taken from the origin
    for (auto &x : tb) {
        t.push_back(x.v);
        fresh += x.fresh;
    }
    size_t over = 0; // a shorter unchanged piece behind a long new one may be carried, too
    for (size_t i = 0, run = 0; i <= tb.size(); i++)
        if (i < tb.size() && tb[i].fresh)
            run++;
        else {
            over += run > 32 ? run : 0;
            run = 0;
        }
    size_t segs = 1; // maximal pieces that are fresh or consecutive in the origin
    for (size_t i = 1; i < tb.size(); i++)
        segs += tb[i].fresh != tb[i - 1].fresh || (!tb[i].fresh && tb[i].src != tb[i - 1].src + 1);
    Bytes d = diff_ok(o, t, comp), raw, got;
    plain(d, comp, raw);
    size_t blocks = 0, nonzero = 0;
    CHECK(ref_apply(raw, o, got, &blocks), "malformed delta");
    size_t extra = 0;
    { // bytes the delta has to carry: changed bytes of diff runs, and extra bytes
        size_t i = 0;
        while (i + 24 <= raw.size()) {
            int64_t dc = ctl(&raw[i]), ec = ctl(&raw[i + 8]);
            i += 24;
            for (int64_t k = 0; k < dc; k++)
                nonzero += raw[i + (size_t)k] != 0;
            i += (size_t)(dc + ec);
            extra += (size_t)ec;
        }
    }
    c.log("%s: origin %zu, target %zu, edits [%s] %zu pieces, fresh %zu: delta %zu bytes, %zu blocks, %zu extra, %zu changed\n", comp_name(comp), n, t.size(),
          s.c_str(), segs, fresh, d.size(), blocks, extra, nonzero);
    if (getenv("PBT_MEASURE"))
        fprintf(stderr, "M %d n=%zu segs=%zu fresh=%zu blocks=%zu carried=%zu d=%zu\n", comp, t.size(), segs, fresh, blocks, extra + nonzero, d.size());
    if (edits)
        c.nontrivial();
    c.label(comp_name(comp));
    // every piece costs at most a control block; content carried is bounded by the fresh content
    CHECK(blocks <= segs + 1, "%zu control blocks for %zu pieces of the origin", blocks, segs);
    CHECK(extra + nonzero <= fresh + over + 20 * segs, "the delta carries %zu bytes for %zu fresh bytes in %zu pieces", extra + nonzero, fresh, segs);
    if (comp == 0)
        CHECK(d.size() == t.size() + 24 * blocks, "uncompressed delta of %zu bytes for a target of %zu and %zu blocks", d.size(), t.size(), blocks);
    size_t bound = comp == 0 ? t.size() + 24 * blocks
                 : comp == 1 ? t.size() / 60 + (fresh + over + 20 * segs) * 5 / 4 + 34 * (blocks + 1)
                             : t.size() / 500 + (fresh + over + 20 * segs) * 5 / 4 + 34 * (blocks + 1) + 128;
    CHECK(d.size() <= bound, "%s delta of %zu bytes exceeds %zu (target %zu, %zu fresh bytes in %zu pieces)", comp_name(comp), d.size(), bound, t.size(),
          fresh, segs);
}
static void worst_size(Case &c)
{
    Gen &g = c.g;
    Pair p = delta::make_pair(c, g, maxsz(c) / 2);
    int comp = (int)g.weighted({3, 4, 1});
    Bytes d = diff_ok(p.o, p.t, comp), raw, got;
    plain(d, comp, raw);
    size_t blocks = 0;
    CHECK(ref_apply(raw, p.o, got, &blocks), "malformed delta");
    c.log("%s delta: %zu bytes, %zu blocks\n", comp_name(comp), d.size(), blocks);
    if (getenv("PBT_MEASURE"))
        fprintf(stderr, "W %d o=%zu t=%zu blocks=%zu d=%zu\n", comp, p.o.size(), p.t.size(), blocks, d.size());
    if (p.t.size() >= 16)
        c.nontrivial();
    CHECK(raw.size() == p.t.size() + 24 * blocks, "control stream of %zu bytes for a target of %zu bytes and %zu blocks", raw.size(), p.t.size(), blocks);
    // a block starts only where the new match is worth more than 8 bytes
    CHECK(blocks <= p.t.size() / 8 + 2, "%zu control blocks for %zu bytes", blocks, p.t.size());
    size_t bound = comp == 0 ? raw.size() : comp == 1 ? raw.size() + raw.size() / 8 + 2 : raw.size() + raw.size() / 16 + 256;
    CHECK(d.size() <= bound, "%s delta of %zu bytes exceeds %zu", comp_name(comp), d.size(), bound);
}

// deltas whose control blocks need all of their 64 bits, on an origin that exists only as a function of the position
struct Virtual {
    Bytes out;
    std::string bad;
    off_t off = 0, oo = 0;
};
static uint8_t v_byte(uint64_t p) { return (uint8_t)((p * 0x9E3779B97F4A7C15ull) >> 56); }
static ssize_t v_read(off_t o, uint8_t *b, size_t n, void *u)
{
    Virtual *v = (Virtual *)u;
    if (o < v->off) {
        v->bad = strf("origin read at %lld, before its start", (long long)o);
        return -1;
    }
    for (size_t i = 0; i < n; i++)
        b[i] = v_byte((uint64_t)(o - v->off) + i);
    return (ssize_t)n;
}
static ssize_t v_write(off_t o, uint8_t *b, size_t n, void *u)
{
    Virtual *v = (Virtual *)u;
    if (o != v->oo + (off_t)v->out.size()) {
        v->bad = strf("write at %lld, expected %lld", (long long)o, (long long)(v->oo + (off_t)v->out.size()));
        return -1;
    }
    v->out.insert(v->out.end(), b, b + n);
    return (ssize_t)n;
}
static void far(Case &c)
{
    Gen &g = c.g;
    Bytes d, want;
    int64_t pos = 0;
    size_t nb = (size_t)g.range(1, 5);
    bool open_end = g.chance(25), big = false;
    for (size_t k = 0; k < nb; k++) {
        size_t df = (size_t)g.range(0, 200), ex = (size_t)g.range(0, 80);
        if (g.chance(c.thorough ? 3 : 1) && !big)
            df += 1u << 24, big = true; // sizes beyond three bytes
        int64_t next = (int64_t)g.below(1000);
        if (g.chance(80))
            next += 1ll << g.range(3, 55);
        bool last = k + 1 == nb;
        int64_t cd = (int64_t)df, ce = (int64_t)ex;
        if (last && open_end) { // the rest of the block does not come
            int64_t more = 1ll << g.range(8, 55);
            if (ex && g.flip())
                ce += more;
            else
                cd += more, ce = (int64_t)g.below(50), ex = 0;
        }
        delta::put_ctl(d, cd);
        delta::put_ctl(d, ce);
        delta::put_ctl(d, next - (pos + cd));
        Bytes dd = df > 1000 ? Bytes(df, (uint8_t)g.below(256)) : g.content(df);
        for (size_t i = 0; i < df; i++)
            want.push_back((uint8_t)(v_byte((uint64_t)pos + i) + dd[i]));
        d.insert(d.end(), dd.begin(), dd.end());
        Bytes xx = g.content(ex);
        want.insert(want.end(), xx.begin(), xx.end());
        d.insert(d.end(), xx.begin(), xx.end());
        c.log("block: diff %lld (%zu), extra %lld (%zu), from %lld to %lld\n", (long long)cd, df, (long long)ce, ex, (long long)pos, (long long)next);
        if (next > (1 << 24) || pos > (1 << 24) || cd > (1 << 24) || ce > (1 << 24))
            c.nontrivial();
        pos = next;
    }
    bool hs = !big && g.flip();
    if (hs) { // literals only: a set bit and the byte
        Bytes e;
        unsigned acc = 0, nbit = 0;
        for (uint8_t x : d) {
            acc = acc << 9 | 0x100 | x;
            nbit += 9;
            while (nbit >= 8)
                e.push_back((uint8_t)(acc >> (nbit -= 8)));
            acc &= (1u << nbit) - 1;
        }
        if (nbit)
            e.push_back((uint8_t)(acc << (8 - nbit)));
        d = e;
    }
    Virtual v;
    v.off = g.pick<off_t>({0, 4096, 1ll << 40});
    v.oo = pick_off(g);
    auto ctx = std::make_unique<bpak_bspatch_context>();
    memset(ctx.get(), 0x5c, sizeof(*ctx));
    size_t bl = pick_buf(g);
    if (big)
        bl = std::max<size_t>(bl, 4096);
    Exact buf(bl);
    int rc = bpak_bspatch_init(ctx.get(), buf.p, bl, d.size(), v_read, v.off, v_write, v.oo, hs ? BPAK_COMPRESSION_HS : BPAK_COMPRESSION_NONE, &v);
    CHECK(rc == 0, "init failed (%d)", rc);
    size_t at = 0;
    std::vector<size_t> ch;
    if (big)
        ch = {d.size()};
    else
        ch = cuts(g, d.size(), false);
    for (size_t n : ch) {
        Exact piece(Bytes(d.begin() + (long)at, d.begin() + (long)(at + n)));
        rc = bpak_bspatch_write(ctx.get(), piece.p, n);
        at += n;
        CHECK(v.bad.empty(), "%s", v.bad.c_str());
        CHECK(rc == 0, "a delta with far jumps is refused (%d)", rc);
    }
    ssize_t fin = bpak_bspatch_final(ctx.get());
    bpak_bspatch_free(ctx.get());
    c.label(open_end ? "unfinished block" : hs ? "heatshrink" : "plain");
    CHECK(v.out == want, "the delta means another target: %s", diff_desc(v.out, want).c_str());
    if (!open_end)
        CHECK(fin == (ssize_t)want.size(), "length reported as %zd, the target has %zu bytes", fin, want.size());
}
// images of more than 16 MiB
static void large(Case &c)
{
    Gen &g = c.g;
    size_t n = (17u << 20) + (size_t)g.below(1u << 20), cut = (size_t)g.range(100000, n - 100000);
    Bytes o(n), t;
    Rng r(g.draw(1u << 30));
    for (auto &x : o)
        x = (uint8_t)r.next();
    int how = (int)g.below(3);
    if (how == 0) { // the ends of the image change places
        t.assign(o.end() - 60000, o.end());
        t.insert(t.end(), o.begin(), o.begin() + 60000);
    } else if (how == 1) { // new data in between
        t.assign(o.begin(), o.begin() + 3000);
        Bytes x = g.content(500);
        t.insert(t.end(), x.begin(), x.end());
        t.insert(t.end(), o.begin() + (long)cut, o.end());
    } else {
        t = Bytes(o.begin() + (long)(n - cut), o.end());
        t.insert(t.end(), o.begin(), o.begin() + (long)(n - cut));
    }
    c.log("origin %zu bytes, target %zu bytes, kind %d, cut at %zu\n", n, t.size(), how, cut);
    int comp = g.chance(70) ? 0 : 1;
    Exact eo(o), et(t);
    Env e;
    ssize_t len = diff(eo, et, comp, e);
    CHECK(len == (ssize_t)e.out.size() && e.bad.empty(), "computing the delta failed (%zd) %s", len, e.bad.c_str());
    Bytes raw, got;
    CHECK(plain(e.out, comp, raw) && ref_apply(raw, o, got), "the delta is malformed (reference decoder)");
    CHECK(got == t, "the delta, decoded by the reference, gives another target: %s", diff_desc(got, t).c_str());
    Env a;
    a.origin = &o;
    Result q = patch(e.out, e.out.size(), comp, 65536, {e.out.size()}, a);
    CHECK(a.bad.empty(), "while applying the delta: %s", a.bad.c_str());
    CHECK(q.ok && a.out == t, "applying the delta gives another target (write %d, final %zd): %s", q.wrc, q.fin, diff_desc(a.out, t).c_str());
    c.nontrivial();
}

static std::vector<Prop> props = {
    {"C12", "far positions", far, 8000, 300000, "hand-made deltas of 1-5 blocks with positions and lengths of up to 2^55 on an origin computed from the position, plain and as heatshrink literals, some with an unfinished last block, against the meaning of the format; non-trivial: a number beyond three bytes", 60},
    {"C12", "large images", large, 8, 200, "origins of 17-18 MiB with ends swapped, parts replaced or rotated: round trip and reference decoder; non-trivial: all", 600},
    {"C12", "round trip", roundtrip, 40000, 600000, "origin/target pairs (edited, unrelated, empty, reordered, contained) x compression x offsets x chunking; non-trivial: both at least 16 bytes and different", 60},
    {"C12", "short strings", small_pairs, 300000, 6000000, "pairs of strings of up to 40 symbols over an alphabet of 1-3; non-trivial: both longer than 4", 20},
    {"C13", "delta application", patch_chunks, 30000, 600000, "intact and damaged deltas applied in one piece and in three random cuttings (empty chunks included) with random work buffers; non-trivial: more than two chunks of a delta longer than a control block", 60},
    {"C13", "hash tree", merkle_chunks, 10000, 200000, "1-140 blocks written in random cuttings against the reference tree; non-trivial: more than two chunks", 60},
    {"C13", "hashing", hash_chunks, 40000, 600000, "random data hashed in random cuttings against the reference hash; non-trivial: more than one chunk", 20},
    {"C14", "damaged deltas", hostile, 80000, 1500000, "deltas with flipped, cut, appended, arbitrary or hand-made control data, wrong announced lengths, any work buffer; non-trivial: differs from the intact delta and holds at least a control block", 20},
    {"C33", "edited content", sizes, 20000, 300000, "incompressible origin and 0-8 edits (overwrite, insert, delete, move, repeat); non-trivial: at least one edit", 60},
    {"C33", "worst case", worst_size, 25000, 300000, "any origin/target pair; non-trivial: target of at least 16 bytes", 60},
};
PBT_MAIN(props)
