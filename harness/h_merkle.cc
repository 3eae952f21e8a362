// C16 hash trees equal the dm-verity definition, C17 hash-tree verification.
#include "delta.hh"
#include "arcgen.hh"
extern "C" {
#include <bpak/pkg.h>
#include <bpak/merkle.h>
#include <bpak/verify.h>
#include <bpak/id.h>
}
using namespace pbt;
using namespace model;

// ---- data made of a palette of blocks, so that big inputs stay cheap for the reference
struct Blocks {
    std::vector<Bytes> pal;
    std::vector<uint16_t> idx;
    const Bytes &at(size_t i) const { return pal[idx[i]]; }
    Bytes flat() const
    {
        Bytes d;
        d.reserve(idx.size() * 4096);
        for (auto i : idx)
            d.insert(d.end(), pal[i].begin(), pal[i].end());
        return d;
    }
};
static ref::Tree verity(const Blocks &b, const Bytes &salt)
{
    std::vector<Bytes> ph;
    for (auto &p : b.pal) {
        Bytes m = salt;
        m.insert(m.end(), p.begin(), p.end());
        ph.push_back(ref::sha256(m));
    }
    ref::Tree t;
    Bytes lvl;
    for (auto i : b.idx)
        lvl.insert(lvl.end(), ph[i].begin(), ph[i].end());
    if (b.idx.size() == 1) {
        t.root = lvl;
        t.tree = lvl;
        t.tree.resize(4096, 0);
        return t;
    }
    lvl.resize((lvl.size() + 4095) / 4096 * 4096, 0);
    if (lvl.size() == 4096) {
        Bytes m = salt;
        m.insert(m.end(), lvl.begin(), lvl.end());
        t.root = ref::sha256(m);
        t.tree = lvl;
        return t;
    }
    ref::Tree up = ref::verity(lvl, salt); // levels above
    t.root = up.root;
    t.tree = up.tree;
    t.tree.insert(t.tree.end(), lvl.begin(), lvl.end());
    return t;
}
static Blocks gen_blocks(Case &c, Gen &g, size_t n)
{
    Blocks b;
    size_t k = (size_t)g.range(1, n > 400 ? 4 : 8);
    for (size_t i = 0; i < k; i++)
        b.pal.push_back(g.content(4096));
    Rng r(g.draw(1u << 20));
    for (size_t i = 0; i < n; i++)
        b.idx.push_back((uint16_t)(r.next() % k));
    (void)c;
    return b;
}
static size_t gen_count(Case &c, Gen &g, bool big)
{
    switch (g.weighted({6, 3, 2, 1})) {
    case 0:
        return (size_t)g.range(1, 16);
    case 1:
        return (size_t)g.range(120, 136);
    case 2:
        return (size_t)g.range(250, 400);
    default:
        if (big && g.chance(c.thorough ? 20 : 4))
            return (size_t)g.range(16380, 16390);
        return (size_t)g.range(1000, 1100);
    }
}

struct Store { // random access output that refuses everything outside the tree
    Bytes b;
    off_t base = 0;
    std::string bad;
};
static ssize_t s_wr(off_t o, uint8_t *p, size_t n, void *u)
{
    Store *m = (Store *)u;
    if (o < m->base || n > m->b.size() || (uint64_t)(o - m->base) > m->b.size() - n) {
        m->bad = strf("write of %zu bytes at offset %lld outside the tree [%lld,+%zu)", n, (long long)o, (long long)m->base, m->b.size());
        return -1;
    }
    memcpy(&m->b[(size_t)(o - m->base)], p, n);
    return (ssize_t)n;
}
static ssize_t s_rd(off_t o, uint8_t *p, size_t n, void *u)
{
    Store *m = (Store *)u;
    if (o < m->base || n > m->b.size() || (uint64_t)(o - m->base) > m->b.size() - n) {
        m->bad = strf("read of %zu bytes at offset %lld outside the tree", n, (long long)o);
        return -1;
    }
    if (n)
        memcpy(p, &m->b[(size_t)(o - m->base)], n);
    return (ssize_t)n;
}

// ------------------------------------------------------------------ C16
static void generation(Case &c)
{
    Gen &g = c.g;
    size_t n = gen_count(c, g, true);
    Blocks b = gen_blocks(c, g, n);
    Bytes salt = g.content((size_t)g.edge_size(32));
    if (salt.size() > 32)
        salt.resize(32);
    c.log("%zu blocks from %zu different ones, salt %zu bytes\n", n, b.pal.size(), salt.size());
    c.label(n == 1 ? "one block" : n <= 128 ? "one level" : n <= 16384 ? "two levels" : "three levels");
    if (n > 1)
        c.nontrivial();
    ref::Tree want = verity(b, salt);
    Store s;
    s.base = delta::pick_off(g);
    s.b.assign(want.tree.size(), 0xCC);
    bool zf = g.chance(70);
    if (!zf)
        std::fill(s.b.begin(), s.b.end(), 0);
    auto ctx = std::make_unique<bpak_merkle_context>();
    memset(ctx.get(), 0x5c, sizeof *ctx);
    delta::Exact sl(salt);
    int rc = bpak_merkle_init(ctx.get(), n * 4096, sl.p, salt.size(), s_wr, s_rd, s.base, zf, &s);
    CHECK(rc == BPAK_OK && s.bad.empty(), "init failed: %s %s", bpak_error_string(rc), s.bad.c_str());
    CHECK(bpak_merkle_get_size(ctx.get()) == want.tree.size(), "size %zu, the tree has %zu bytes", bpak_merkle_get_size(ctx.get()), want.tree.size());
    CHECK(bpak_merkle_compute_size(n * 4096) == (ssize_t)want.tree.size(), "computed size %zd, the tree has %zu bytes", bpak_merkle_compute_size(n * 4096), want.tree.size());
    bool whole = n < 2000 && g.flip();
    if (whole) {
        delta::Exact d(b.flat());
        rc = bpak_merkle_write_chunk(ctx.get(), d.p, d.n);
        CHECK(rc == BPAK_OK && s.bad.empty(), "write_chunk failed: %s %s", bpak_error_string(rc), s.bad.c_str());
    } else {
        for (size_t i = 0; i < n; i++) {
            Bytes x = b.at(i);
            size_t cut = (size_t)g.below(3) * 1000;
            rc = bpak_merkle_write_chunk(ctx.get(), x.data(), cut);
            CHECK(rc == BPAK_OK && s.bad.empty(), "write_chunk failed: %s %s", bpak_error_string(rc), s.bad.c_str());
            rc = bpak_merkle_write_chunk(ctx.get(), x.data() + cut, 4096 - cut);
            CHECK(rc == BPAK_OK && s.bad.empty(), "write_chunk failed: %s %s", bpak_error_string(rc), s.bad.c_str());
        }
    }
    bpak_merkle_hash_t root;
    rc = bpak_merkle_finish(ctx.get(), root);
    CHECK(rc == BPAK_OK && s.bad.empty(), "finish failed: %s %s", bpak_error_string(rc), s.bad.c_str());
    CHECK(s.b == want.tree, "tree differs: %s", diff_desc(s.b, want.tree).c_str());
    CHECK(Bytes(root, root + 32) == want.root, "root hash differs");
}

// sizes, levels and refusals, without data
static ssize_t null_wr(off_t, uint8_t *, size_t n, void *) { return (ssize_t)n; }
static ssize_t null_rd(off_t, uint8_t *b, size_t n, void *)
{
    memset(b, 0, n);
    return (ssize_t)n;
}
static void lengths(Case &c)
{
    Gen &g = c.g;
    uint64_t len;
    switch (g.below(5)) {
    case 0:
        len = g.below(1u << 20);
        break;
    case 1:
        len = g.below(1u << 28) * 4096;
        break;
    case 2: { // at the level boundaries
        static const int lv[] = {12, 19, 26, 33, 40, 47, 54};
        len = (1ull << lv[g.below(7)]) + (uint64_t)(int64_t)((int64_t)g.range(0, 6) - 3) * (g.flip() ? 4096 : 1);
        break;
    }
    case 3:
        len = g.draw(~0ull) & ~4095ull;
        break;
    default:
        len = g.draw(~0ull) >> g.below(40);
    }
    size_t sl = g.chance(80) ? (size_t)g.range(0, 32) : (size_t)g.range(33, 80);
    uint64_t blocks = len / 4096;
    bool ok = len % 4096 == 0 && len > 0 && blocks <= 128ull * 128 * 128 * 128;
    c.log("length %llu, salt %zu bytes\n", (unsigned long long)len, sl);
    if (len % 4096 == 0 && blocks > 128)
        c.nontrivial();
    ssize_t cs = bpak_merkle_compute_size(len);
    auto ctx = std::make_unique<bpak_merkle_context>();
    delta::Exact salt(g.content(sl));
    int rc = bpak_merkle_init(ctx.get(), len, salt.p, sl, null_wr, null_rd, 0, false, nullptr);
    if (ok) {
        int64_t want = ref::verity_size(len);
        c.label(blocks <= 128 ? "1 level" : blocks <= 16384 ? "2 levels" : blocks <= 128 * 16384 ? "3 levels" : "4 levels");
        CHECK(cs == want, "computed size of %llu bytes: %zd instead of %lld", (unsigned long long)len, cs, (long long)want);
        if (sl <= 32) {
            CHECK(rc == BPAK_OK, "init for %llu bytes (tree of %lld) refused: %s", (unsigned long long)len, (long long)want, bpak_error_string(rc));
            CHECK(bpak_merkle_get_size(ctx.get()) == (size_t)want, "announced size %zu instead of %lld", bpak_merkle_get_size(ctx.get()), (long long)want);
        } else
            CHECK(rc != BPAK_OK, "salt of %zu bytes accepted", sl);
    } else {
        c.label("refused");
        CHECK(cs < 0, "size of a tree over %llu bytes: %zd", (unsigned long long)len, cs);
        CHECK(rc != BPAK_OK, "tree over %llu bytes accepted", (unsigned long long)len);
    }
}

// supplying more or less data than announced
static void amounts(Case &c)
{
    Gen &g = c.g;
    size_t n = (size_t)g.range(1, 5);
    if (g.chance(20))
        n = (size_t)g.range(126, 131);
    Bytes salt = g.content(32);
    int64_t d = g.chance(20) ? 0 : (int64_t)g.range(0, 2 * 4096) - 4096;
    if (g.chance(30))
        d = g.pick<int64_t>({-4096, -1, 1, 4095, 4096, 8192});
    size_t total = (size_t)std::max<int64_t>(0, (int64_t)n * 4096 + d);
    Bytes data = g.content(total);
    c.log("%zu blocks announced, %zu bytes supplied\n", n, total);
    if (total != n * 4096)
        c.nontrivial();
    Store s;
    s.b.assign((size_t)ref::verity_size(n * 4096), 0);
    auto ctx = std::make_unique<bpak_merkle_context>();
    int rc = bpak_merkle_init(ctx.get(), n * 4096, salt.data(), 32, s_wr, s_rd, 0, true, &s);
    CHECK(rc == BPAK_OK, "init failed");
    size_t pos = 0;
    for (size_t k : delta::cuts(g, total)) {
        delta::Exact e(Bytes(data.begin() + (long)pos, data.begin() + (long)(pos + k)));
        rc = bpak_merkle_write_chunk(ctx.get(), e.p, k);
        pos += k;
        CHECK(s.bad.empty(), "after %zu of %zu announced bytes: %s", pos, n * 4096, s.bad.c_str());
        if (rc)
            break;
    }
    bpak_merkle_hash_t root;
    if (rc == BPAK_OK)
        rc = bpak_merkle_finish(ctx.get(), root);
    CHECK(s.bad.empty(), "%s", s.bad.c_str());
    CHECK((rc == BPAK_OK) == (total == n * 4096), "%zu bytes announced, %zu supplied: %s", n * 4096, total, rc ? bpak_error_string(rc) : "success");
    if (rc == BPAK_OK)
        CHECK(Bytes(root, root + 32) == ref::verity(data, salt).root, "root hash differs");
}

struct Pkg {
    bpak_package *p;
    bool open = false;
    Pkg() { p = (bpak_package *)calloc(1, sizeof *p); }
    ~Pkg()
    {
        if (open)
            bpak_pkg_close(p);
        free(p);
    }
    int open_file(const std::string &f, const char *mode)
    {
        int rc = bpak_pkg_open(p, f.c_str(), mode);
        open = rc == BPAK_OK;
        return rc;
    }
};

// what the package interface stores
static void stored(Case &c)
{
    Gen &g = c.g;
    size_t n = gen_count(c, g, false);
    Blocks b = gen_blocks(c, g, n);
    Bytes d = b.flat();
    if (n > 1)
        c.nontrivial();
    std::string f = c.path("in"), a = c.path("a.bpak");
    write_file(f, d);
    size_t before = (size_t)g.below(3);
    uint8_t fl = g.chance(30) ? 1 : 0;
    Pkg p;
    CHECK(p.open_file(a, "wb+") == BPAK_OK, "cannot create");
    for (size_t i = 0; i < before; i++) {
        std::string e = c.path("e");
        write_file(e, g.content((size_t)g.edge_size(3000)));
        CHECK(bpak_pkg_add_file(p.p, e.c_str(), strf("x%zu", i).c_str(), 0) == BPAK_OK, "add_file failed");
    }
    int rc = bpak_pkg_add_file_with_merkle_tree(p.p, f.c_str(), "fs", fl);
    CHECK(rc == BPAK_OK, "adding %zu blocks with a hash tree failed: %s", n, bpak_error_string(rc));
    bpak_pkg_close(p.p);
    p.open = false;
    c.log("%zu blocks behind %zu parts, flags %u\n", n, before, fl);
    ref::Header h;
    Bytes file = slurp(a);
    h = ref::parse(file);
    CHECK(h.parts.size() == before + 2, "%zu parts", h.parts.size());
    auto &dp = h.parts[before], &tp = h.parts[before + 1];
    uint32_t id = ref::id("fs");
    CHECK(dp.id == id && tp.id == ref::tree_id(id), "part ids %08x %08x", dp.id, tp.id);
    Bytes salt, root;
    for (auto &m : h.metas)
        if (m.ref == id) {
            const Bytes &v = m.data;
            if (m.id == 0x7c9b2f93)
                salt = v;
            if (m.id == 0xe68fc9be)
                root = v;
        }
    CHECK(salt.size() == 32 && root.size() == 32, "salt %zu bytes, root hash %zu bytes", salt.size(), root.size());
    ref::Tree want = verity(b, salt);
    size_t off = 4096;
    for (size_t i = 0; i < before; i++)
        off += h.parts[i].size + h.parts[i].pad;
    CHECK(dp.size == d.size() && dp.pad == 0 && tp.size == want.tree.size() && tp.pad == 0, "sizes %llu+%u, %llu+%u", (unsigned long long)dp.size, dp.pad, (unsigned long long)tp.size, tp.pad);
    CHECK(dp.flags == fl && tp.flags == fl, "flags %u %u instead of %u", dp.flags, tp.flags, fl);
    CHECK(file.size() == off + d.size() + want.tree.size(), "file has %zu bytes", file.size());
    CHECK(!memcmp(&file[off], d.data(), d.size()), "stored data differs");
    Bytes t(file.begin() + (long)(off + d.size()), file.end());
    CHECK(t == want.tree, "stored tree: %s", diff_desc(t, want.tree).c_str());
    CHECK(root == want.root, "stored root hash differs");
}

// ------------------------------------------------------------------ C17
struct Image {
    Bytes b;
    off_t base = 0;
    uint64_t calls = 0, fail_at = 0;
    int kind = 0;
    bool failed = false;
};
static ssize_t img_rd(off_t o, uint8_t *p, size_t n, void *u)
{
    Image *m = (Image *)u;
    if (++m->calls == m->fail_at && n) {
        m->failed = true;
        return m->kind == 0 ? -BPAK_READ_ERROR : m->kind == 1 ? (ssize_t)(n - 1) : 0;
    }
    if (o < m->base || n > m->b.size() || (uint64_t)(o - m->base) > m->b.size() - n)
        return -BPAK_READ_ERROR;
    if (n)
        memcpy(p, &m->b[(size_t)(o - m->base)], n);
    return (ssize_t)n;
}
static bool consistent(const Bytes &data, const Bytes &tree, const Bytes &salt, const Bytes &root)
{
    if (data.empty() || data.size() % 4096)
        return false;
    ref::Tree t = ref::verity(data, salt);
    size_t cmp = data.size() == 4096 ? 32 : t.tree.size();
    return root == t.root && tree.size() >= cmp && !memcmp(tree.data(), t.tree.data(), cmp);
}
static void verify_tree(Case &c)
{
    Gen &g = c.g;
    size_t n = g.chance(75) ? (size_t)g.range(1, 6) : (size_t)g.range(120, 280);
    Bytes d = gen_blocks(c, g, n).flat(), salt = g.content(32);
    ref::Tree t = ref::verity(d, salt);
    Bytes root = t.root, tree = t.tree;
    size_t gap0 = (size_t)g.edge_size(600), gap1 = (size_t)g.edge_size(600);
    bool tree_first = g.flip();
    Image im;
    im.base = delta::pick_off(g);
    // layout: gap0, first, gap1, second
    auto lay = [&](off_t &doff, off_t &toff) {
        im.b.assign(gap0, 0x11);
        const Bytes &a = tree_first ? tree : d, &b = tree_first ? d : tree;
        (tree_first ? toff : doff) = im.base + (off_t)im.b.size();
        im.b.insert(im.b.end(), a.begin(), a.end());
        im.b.insert(im.b.end(), gap1, 0x22);
        (tree_first ? doff : toff) = im.base + (off_t)im.b.size();
        im.b.insert(im.b.end(), b.begin(), b.end());
    };
    size_t dlen = d.size();
    off_t doff, toff;
    lay(doff, toff);
    c.log("%zu blocks, tree %s\n", n, tree_first ? "first" : "behind");
    auto run = [&] { return bpak_verify_merkle_tree(img_rd, doff, dlen, toff, root.data(), salt.data(), &im); };
    int rc = run();
    CHECK(rc == BPAK_OK, "consistent data refused: %s", bpak_error_string(rc));
    uint64_t total_calls = im.calls;
    for (int k = 0; k < 4; k++) {
        Bytes d0 = d, t0 = tree, s0 = salt, r0 = root;
        size_t l0 = dlen;
        std::string what;
        bool swapped = false;
        switch (g.weighted({4, 5, 2, 2, 1, 1, 2})) {
        case 0: {
            size_t p = (size_t)g.below(d.size());
            d[p] ^= (uint8_t)(1 << g.below(8));
            what = strf("data byte %zu", p);
            break;
        }
        case 1: {
            size_t p = (size_t)g.below(tree.size());
            tree[p] ^= (uint8_t)(1 << g.below(8));
            what = strf("tree byte %zu", p);
            break;
        }
        case 2:
            salt[g.below(32)] ^= (uint8_t)(1 << g.below(8));
            what = "salt";
            break;
        case 3:
            root[g.below(32)] ^= (uint8_t)(1 << g.below(8));
            what = "root hash";
            break;
        case 4: { // two changes: data and the tree node of its block
            size_t bl = (size_t)g.below(n);
            d[bl * 4096] ^= 1;
            ref::Tree nt = ref::verity(d, salt);
            if (g.flip())
                tree = nt.tree; // only the root hash tells
            else
                memcpy(&tree[tree.size() - ((n * 32 + 4095) / 4096) * 4096 + bl * 32], &nt.tree[nt.tree.size() - ((n * 32 + 4095) / 4096) * 4096 + bl * 32], 32);
            what = "data and tree";
            break;
        }
        case 5: { // a consistent pair of other data
            Bytes od = g.content(d.size());
            swapped = true;
            d = od;
            tree = ref::verity(od, salt).tree;
            what = "data and tree of another part";
            break;
        }
        default: // other length
            dlen = g.flip() ? dlen + 4096 : dlen - std::min<size_t>(dlen, (size_t)g.range(1, 4096));
            what = strf("length %zu", dlen);
        }
        (void)swapped;
        Bytes seen = d;
        lay(doff, toff);
        { // what the verifier is shown as data
            size_t o = (size_t)(doff - im.base);
            seen = o + dlen <= im.b.size() ? Bytes(im.b.begin() + (long)o, im.b.begin() + (long)(o + dlen)) : Bytes();
        }
        size_t to = (size_t)(toff - im.base);
        Bytes tseen(im.b.begin() + (long)to, im.b.end());
        bool ok = consistent(seen, tseen, salt, root);
        rc = run();
        if (!ok)
            c.nontrivial();
        CHECK((rc == BPAK_OK) == ok, "changed %s: %s although %s", what.c_str(), rc ? "refused" : "accepted", ok ? "consistent" : "inconsistent");
        d = d0, tree = t0, salt = s0, root = r0, dlen = l0;
    }
    lay(doff, toff);
    im.calls = 0;
    im.fail_at = 1 + g.below(total_calls);
    im.kind = (int)g.below(3);
    rc = run();
    CHECK(im.failed && rc != BPAK_OK, "accepted although read %llu of %llu failed", (unsigned long long)im.fail_at, (unsigned long long)total_calls);
}

// archives with several protected parts
static void verify_archive(Case &c)
{
    Gen &g = c.g;
    Arc a;
    a.hash_kind = (uint8_t)g.range(1, 3);
    size_t n = (size_t)g.range(1, 4), prot = 0;
    for (size_t i = 0; i < n; i++) {
        uint32_t id = arcgen::part_id(g, i);
        uint8_t fl = g.chance(60) ? 1 : 0; // excluded parts rely on their tree
        if (g.chance(70)) {
            a.add_with_tree(id, g.content((size_t)g.range(1, 4) * 4096), g.content(32), fl);
            prot++;
        } else
            a.add(id, g.content((size_t)g.edge_size(2000)), fl);
    }
    for (size_t k = g.below(4); k && a.parts.size() > 1; k--)
        std::swap(a.parts[g.below(a.parts.size())], a.parts[g.below(a.parts.size())]);
    a.update_hash();
    arcgen::describe(c, a);
    Bytes f = a.build();
    Image im;
    im.base = delta::pick_off(g);
    auto verify = [&](const Bytes &file) {
        bpak_header h;
        memcpy(&h, file.data(), 4096);
        im.b.assign(file.begin() + 4096, file.end());
        im.calls = 0;
        im.failed = false;
        return bpak_verify_payload(&h, img_rd, im.base, &im);
    };
    int rc = verify(f);
    CHECK(rc == BPAK_OK, "intact archive refused: %s", bpak_error_string(rc));
    uint64_t total = im.calls;
    // oracle for a changed archive
    auto oracle = [&](const Arc &m, bool rehash) {
        Arc k = m;
        if (!rehash) {
            Arc q = m;
            q.update_hash();
            if (q.phash != m.phash)
                return false;
        }
        for (auto &p : k.parts) {
            const MMeta *r = nullptr, *s = nullptr;
            for (auto &x : k.metas)
                if (x.ref == p.id && x.id == ID_ROOT && !r)
                    r = &x;
                else if (x.ref == p.id && x.id == ID_SALT && !s)
                    s = &x;
            if (!r)
                continue;
            int ti = k.find(ref::tree_id(p.id));
            if (!s || ti < 0)
                return false;
            if (!consistent(p.stored, k.parts[(size_t)ti].stored, s->data, r->data))
                return false;
        }
        return true;
    };
    for (int k = 0; k < 4; k++) {
        Arc m = a;
        std::string what;
        bool rehash = g.chance(70); // as somebody who can recompute the payload hash would do
        std::vector<size_t> pi, ti;
        for (size_t i = 0; i < m.parts.size(); i++)
            if (m.find(ref::tree_id(m.parts[i].id)) >= 0) {
                pi.push_back(i);
                ti.push_back((size_t)m.find(ref::tree_id(m.parts[i].id)));
            }
        if (pi.empty())
            break;
        size_t x = (size_t)g.below(pi.size());
        switch (g.below(7)) {
        case 0: {
            Bytes &s = m.parts[pi[x]].stored;
            s[g.below(s.size())] ^= (uint8_t)(1 << g.below(8));
            what = "data bit";
            break;
        }
        case 1: {
            Bytes &s = m.parts[ti[x]].stored;
            s[g.below(s.size())] ^= (uint8_t)(1 << g.below(8));
            what = "tree bit";
            break;
        }
        case 2: {
            what = "metadata bit";
            auto &mm = m.metas[g.below(m.metas.size())];
            mm.data[g.below(mm.data.size())] ^= (uint8_t)(1 << g.below(8));
            break;
        }
        case 3: { // swap the contents of two protected pairs of equal size
            what = "pairs swapped";
            size_t y = (size_t)g.below(pi.size());
            std::swap(m.parts[pi[x]].stored, m.parts[pi[y]].stored);
            std::swap(m.parts[ti[x]].stored, m.parts[ti[y]].stored);
            std::swap(m.parts[pi[x]].size, m.parts[pi[y]].size);
            std::swap(m.parts[ti[x]].size, m.parts[ti[y]].size);
            break;
        }
        case 4: {
            what = "trees swapped";
            size_t y = (size_t)g.below(pi.size());
            std::swap(m.parts[ti[x]].stored, m.parts[ti[y]].stored);
            std::swap(m.parts[ti[x]].size, m.parts[ti[y]].size);
            break;
        }
        case 5: {
            what = "metadata entry removed";
            m.metas.erase(m.metas.begin() + (long)g.below(m.metas.size()));
            break;
        }
        default: {
            what = "tree part removed";
            m.parts.erase(m.parts.begin() + (long)ti[x]);
        }
        }
        if (rehash)
            m.update_hash();
        bool ok = oracle(m, rehash);
        rc = verify(m.build());
        if (!ok)
            c.nontrivial();
        c.label(what + (ok ? " (no matter)" : ""));
        CHECK((rc == BPAK_OK) == ok, "%s%s: %s", what.c_str(), rehash ? ", payload hash recomputed" : "", rc ? "refused although consistent" : "accepted");
    }
    im.fail_at = 1 + g.below(total);
    im.kind = (int)g.below(3);
    rc = verify(f);
    if (im.failed)
        CHECK(rc != BPAK_OK, "accepted although read %llu of %llu failed", (unsigned long long)im.fail_at, (unsigned long long)total);
}

static std::vector<Prop> props = {
    {"C16", "generation", generation, 8000, 64000, "1 to 16390 blocks, any salt up to 32 bytes, any offset, against the reference dm-verity tree; non-trivial: more than one block", 120},
    {"C16", "lengths", lengths, 80000, 1000000, "any 64-bit length and salt length, level boundaries preferred; non-trivial: multiple of the block size with more than one level", 20},
    {"C16", "amounts", amounts, 12000, 100000, "more or less data than announced, in random cuttings; non-trivial: amount differs", 20},
    {"C16", "stored tree", stored, 5000, 40000, "files of 1-1100 blocks added with a hash tree behind 0-2 parts, archive file compared byte for byte; non-trivial: more than one block", 120},
    {"C17", "tree verification", verify_tree, 6000, 100000, "consistent data/tree/salt/root at any position, then four corruptions each (bits, both sides, lengths, foreign pairs) and a failing read; non-trivial: an inconsistent combination was shown", 120},
    {"C17", "archives", verify_archive, 8000, 150000, "archives with 0-4 protected parts in any order, four corruptions each with and without recomputed payload hash; non-trivial: an inconsistent archive was shown", 60},
};
PBT_MAIN(props)
