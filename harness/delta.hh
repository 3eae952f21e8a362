// Delta generation/application helpers, reference decoders and pair generators.
#pragma once
#include "pbt.hh"
#include "ref.hh"
#include <memory>
#include <lzma.h>
extern "C" {
#include <bpak/bpak.h>
#include <bpak/bsdiff.h>
#include <bpak/bspatch.h>
}

namespace delta {
using namespace pbt;

static const char *comp_name(int c) { return c == 0 ? "none" : c == 1 ? "heatshrink" : "lzma"; }

// exact-size heap copy so that the address sanitizer sees every access outside it
struct Exact {
    uint8_t *p;
    size_t n;
    explicit Exact(const Bytes &b) : p((uint8_t *)malloc(b.size() ? b.size() : 1)), n(b.size())
    {
        if (n)
            memcpy(p, b.data(), n);
    }
    explicit Exact(size_t sz) : p((uint8_t *)malloc(sz ? sz : 1)), n(sz) { memset(p, 0xA5, sz ? sz : 1); }
    ~Exact() { free(p); }
    Exact(const Exact &) = delete;
    bool same(const Bytes &b) const { return b.size() == n && (!n || !memcmp(p, b.data(), n)); }
};

// Environment of a delta/patch run. Records every request and checks it.
struct Env {
    const Bytes *origin = nullptr;
    off_t origin_off = 0, out_off = 0;
    size_t max_read = (size_t)-1, limit = 64u << 20;
    bool strict_end = true; // reads behind the end of the origin are failures of the environment, not of the code
    Bytes out;
    std::string bad;        // first illegal request
    uint64_t calls = 0, reads = 0, writes = 0;
    uint64_t fail_at = 0;   // fail this call (1 based)
    int fail_kind = 0;      // 0 error code, 1 short, 2 zero, 3 more than asked
    bool failed = false;
    void note(const std::string &s)
    {
        if (bad.empty())
            bad = s;
    }
    bool inject(size_t len, ssize_t &r)
    {
        calls++;
        if (!fail_at || calls != fail_at || !len)
            return false;
        failed = true;
        r = fail_kind == 0 ? -BPAK_READ_ERROR : fail_kind == 1 ? (ssize_t)(len - 1) : 0;
        return true;
    }
};
static ssize_t env_read(off_t o, uint8_t *b, size_t n, void *u)
{
    Env *e = (Env *)u;
    e->reads++;
    ssize_t r;
    if ((ssize_t)n < 0 || n > e->max_read) {
        e->note(strf("read of %zu bytes into a buffer of %zu", n, e->max_read));
        return -1;
    }
    if (e->inject(n, r)) {
        if (r > 0)
            memset(b, 0x5a, (size_t)r);
        return r;
    }
    if (n == 0)
        return 0;
    if (o < e->origin_off) {
        e->note(strf("origin read at offset %lld, before the start of the origin (%lld)", (long long)o, (long long)e->origin_off));
        return -1;
    }
    uint64_t rel = (uint64_t)(o - e->origin_off);
    if (rel > e->origin->size() || n > e->origin->size() - rel) {
        memset(b, 0xEE, n); // the whole range must be writable
        return -BPAK_READ_ERROR;
    }
    memcpy(b, e->origin->data() + rel, n);
    return (ssize_t)n;
}
static ssize_t env_write(off_t o, uint8_t *b, size_t n, void *u)
{
    Env *e = (Env *)u;
    e->writes++;
    ssize_t r;
    if ((ssize_t)n < 0) {
        e->note(strf("write of %zu bytes", n));
        return -1;
    }
    if (e->inject(n, r))
        return r;
    if (n == 0)
        return 0;
    if (o != e->out_off + (off_t)e->out.size()) {
        e->note(strf("write at offset %lld, expected %lld", (long long)o, (long long)(e->out_off + (off_t)e->out.size())));
        return -1;
    }
    if (e->out.size() + n > e->limit)
        return -BPAK_WRITE_ERROR;
    e->out.insert(e->out.end(), b, b + n);
    return (ssize_t)n;
}

// ---- computing a delta with the code under test. Returns the library's result.
static inline ssize_t diff(const Exact &origin, const Exact &target, int comp, Env &e)
{
    auto ctx = std::make_unique<bpak_bsdiff_context>();
    memset(ctx.get(), 0x5c, sizeof(*ctx));
    int rc = bpak_bsdiff_init(ctx.get(), origin.p, origin.n, target.p, target.n, env_write, e.out_off,
                              (enum bpak_compression)comp, &e);
    if (rc != BPAK_OK)
        return rc < 0 ? rc : -9999;
    ssize_t r = bpak_bsdiff(ctx.get());
    bpak_bsdiff_free(ctx.get());
    return r;
}
static inline Bytes diff_ok(const Bytes &o, const Bytes &t, int comp)
{
    Exact eo(o), et(t);
    Env e;
    ssize_t r = diff(eo, et, comp, e);
    CHECK(r >= 0, "computing a %s delta of %zu -> %zu bytes failed (%zd)", comp_name(comp), o.size(), t.size(), r);
    CHECK(e.bad.empty(), "%s", e.bad.c_str());
    CHECK((size_t)r == e.out.size(), "delta length reported as %zd, %zu bytes written", r, e.out.size());
    return e.out;
}
// ---- applying. chunks: sizes of successive writes (rest in one piece). announced = input_length.
struct Result {
    int wrc = 0;       // first failing write
    ssize_t fin = -1;  // bspatch_final
    bool ok = false;
};
static inline Result patch(const Bytes &d, size_t announced, int comp, size_t buflen, const std::vector<size_t> &chunks, Env &e)
{
    Result r;
    auto ctx = std::make_unique<bpak_bspatch_context>();
    memset(ctx.get(), 0x5c, sizeof(*ctx));
    Exact buf(buflen);
    e.max_read = buflen / 2;
    int rc = bpak_bspatch_init(ctx.get(), buf.p, buflen, announced, env_read, e.origin_off, env_write, e.out_off,
                               (enum bpak_compression)comp, &e);
    if (rc != BPAK_OK) {
        r.wrc = rc;
        return r;
    }
    size_t pos = 0, k = 0;
    while (pos < d.size() || k < chunks.size()) {
        size_t n = k < chunks.size() ? std::min(chunks[k], d.size() - pos) : d.size() - pos;
        k++;
        if (pos >= d.size() && k > chunks.size())
            break;
        Exact piece(Bytes(d.begin() + (long)pos, d.begin() + (long)(pos + n)));
        rc = bpak_bspatch_write(ctx.get(), piece.p, n);
        pos += n;
        if (rc != BPAK_OK) {
            r.wrc = rc;
            break;
        }
    }
    if (rc == BPAK_OK) {
        r.fin = bpak_bspatch_final(ctx.get());
        r.ok = r.fin >= 0;
    }
    bpak_bspatch_free(ctx.get());
    return r;
}

// ---- reference decoders
static inline Bytes hs_decode(const Bytes &in, size_t limit = 64u << 20)
{
    Bytes out;
    size_t bit = 0, nbits = in.size() * 8;
    auto get = [&](unsigned n) {
        unsigned v = 0;
        for (unsigned i = 0; i < n; i++, bit++)
            v = v << 1 | ((in[bit >> 3] >> (7 - (bit & 7))) & 1);
        return v;
    };
    while (bit + 9 <= nbits && out.size() < limit) {
        size_t save = bit;
        if (get(1))
            out.push_back((uint8_t)get(8));
        else {
            if (save + 16 > nbits)
                break;
            size_t dist = get(8) + 1, cnt = get(7) + 1;
            for (; cnt; cnt--)
                out.push_back(dist <= out.size() ? out[out.size() - dist] : 0);
        }
    }
    return out;
}
static inline bool lzma_decode(const Bytes &in, Bytes &out, size_t limit = 64u << 20)
{
    lzma_stream s = LZMA_STREAM_INIT;
    if (lzma_stream_decoder(&s, UINT64_MAX, LZMA_CONCATENATED) != LZMA_OK)
        return false;
    s.next_in = in.data();
    s.avail_in = in.size();
    std::vector<uint8_t> b(1 << 16);
    lzma_ret r;
    do {
        s.next_out = b.data();
        s.avail_out = b.size();
        r = lzma_code(&s, LZMA_FINISH);
        out.insert(out.end(), b.data(), b.data() + (b.size() - s.avail_out));
    } while (r == LZMA_OK && out.size() < limit);
    lzma_end(&s);
    return r == LZMA_STREAM_END;
}
static inline int64_t ctl(const uint8_t *p)
{
    uint64_t v = 0;
    for (int i = 8; i--;)
        v = v << 8 | p[i];
    int64_t m = (int64_t)(v & 0x7fffffffffffffffull);
    return v >> 63 ? -m : m;
}
static inline void put_ctl(Bytes &b, int64_t v)
{
    uint64_t m = v < 0 ? (uint64_t)-v : (uint64_t)v;
    if (v < 0)
        m |= 1ull << 63;
    for (int i = 0; i < 8; i++)
        b.push_back((uint8_t)(m >> (8 * i)));
}
// applies an uncompressed control/diff/extra stream; false when malformed
static inline bool ref_apply(const Bytes &d, const Bytes &o, Bytes &out, size_t *blocks = nullptr)
{
    size_t i = 0;
    int64_t op = 0;
    while (i < d.size()) {
        if (d.size() - i < 24)
            return false;
        int64_t dc = ctl(&d[i]), ec = ctl(&d[i + 8]), adj = ctl(&d[i + 16]);
        i += 24;
        if (blocks)
            (*blocks)++;
        if (dc < 0 || ec < 0 || (uint64_t)dc > d.size() - i || (uint64_t)ec > d.size() - i - (uint64_t)dc)
            return false;
        if (dc && (op < 0 || (uint64_t)op > o.size() || (uint64_t)dc > o.size() - (uint64_t)op))
            return false;
        for (int64_t k = 0; k < dc; k++)
            out.push_back((uint8_t)(d[i + (size_t)k] + o[(size_t)(op + k)]));
        i += (size_t)dc;
        op += dc;
        out.insert(out.end(), d.begin() + (long)i, d.begin() + (long)(i + (size_t)ec));
        i += (size_t)ec;
        op += adj;
    }
    return true;
}
static inline bool plain(const Bytes &d, int comp, Bytes &raw)
{
    if (comp == 0) {
        raw = d;
        return true;
    }
    if (comp == 1) {
        raw = hs_decode(d);
        return true;
    }
    return lzma_decode(d, raw);
}

// ---- generators
static inline Bytes edit(Case &c, Gen &g, Bytes t, size_t max, bool log = true)
{
    size_t n = (size_t)g.weighted({2, 4, 4, 3, 2, 1});
    std::string s;
    for (size_t i = 0; i < n; i++) {
        size_t p = (size_t)g.below(t.size() + 1);
        switch (g.weighted({4, 3, 3, 3, 2, 1, 2})) {
        case 0: // overwrite bytes
            for (size_t k = (size_t)g.range(1, 20); k && p < t.size(); k--, p++)
                t[p] = (uint8_t)(t[p] + 1 + g.below(255));
            s += "o";
            break;
        case 1: { // insert
            Bytes x = g.content((size_t)g.logsize(600));
            if (t.size() + x.size() <= max)
                t.insert(t.begin() + (long)p, x.begin(), x.end());
            s += "i";
            break;
        }
        case 2: { // delete
            size_t k = std::min<size_t>((size_t)g.logsize(800), t.size() - p);
            t.erase(t.begin() + (long)p, t.begin() + (long)(p + k));
            s += "d";
            break;
        }
        case 3: { // move a block
            size_t k = std::min<size_t>((size_t)g.logsize(1500), t.size() - p);
            Bytes x(t.begin() + (long)p, t.begin() + (long)(p + k));
            t.erase(t.begin() + (long)p, t.begin() + (long)(p + k));
            size_t q = (size_t)g.below(t.size() + 1);
            t.insert(t.begin() + (long)q, x.begin(), x.end());
            s += "m";
            break;
        }
        case 4: { // repeat a block
            size_t k = std::min<size_t>((size_t)g.logsize(1500), t.size() - p);
            Bytes x(t.begin() + (long)p, t.begin() + (long)(p + k));
            if (t.size() + k <= max)
                t.insert(t.begin() + (long)g.below(t.size() + 1), x.begin(), x.end());
            s += "r";
            break;
        }
        case 5: // add a constant to a range
            for (size_t k = (size_t)g.logsize(2000), v = (size_t)g.range(1, 255); k && p < t.size(); k--, p++)
                t[p] = (uint8_t)(t[p] + v);
            s += "c";
            break;
        default: // truncate front or back
            if (g.flip())
                t.resize(p);
            else
                t.erase(t.begin(), t.begin() + (long)p);
            s += "t";
        }
    }
    if (log)
        c.log(" edits '%s'", s.c_str());
    return t;
}
struct Pair {
    Bytes o, t;
};
static inline Pair make_pair(Case &c, Gen &g, size_t max)
{
    Pair p;
    size_t n = g.chance(5) ? 0 : (size_t)(g.chance(25) ? g.range(0, 40) : g.logsize(max));
    p.o = g.content(n);
    switch (g.weighted({8, 2, 1, 1, 1})) {
    case 0:
        p.t = edit(c, g, p.o, max);
        break;
    case 1:
        p.t = g.content((size_t)g.logsize(max));
        break;
    case 2:
        break; // empty
    case 3:    // blocks of the origin in another order
        for (size_t k = (size_t)g.range(1, 6); k && !p.o.empty(); k--) {
            size_t a = (size_t)g.below(p.o.size()), l = (size_t)g.range(1, p.o.size() - a);
            if (p.t.size() + l <= max)
                p.t.insert(p.t.end(), p.o.begin() + (long)a, p.o.begin() + (long)(a + l));
        }
        break;
    default: { // origin is a piece of the target
        p.t = p.o;
        Bytes x = g.content((size_t)g.logsize(max / 2)), y = g.content((size_t)g.logsize(max / 2));
        p.t.insert(p.t.begin(), x.begin(), x.end());
        p.t.insert(p.t.end(), y.begin(), y.end());
    }
    }
    c.log("origin %zu bytes, target %zu bytes\n", p.o.size(), p.t.size());
    return p;
}
static inline int pick_comp(Gen &g) { return (int)g.weighted({4, 6, 1}); }
static inline off_t pick_off(Gen &g)
{
    static const off_t o[] = {0, 1, 4096, 511, 1ll << 33, 1ll << 40};
    return o[g.below(6)];
}
static inline std::vector<size_t> cuts(Gen &g, size_t total, bool empties = true)
{
    std::vector<size_t> v;
    switch (g.weighted({2, 2, 3, 3})) {
    case 0:
        v.push_back(total);
        break;
    case 1: { // fixed
        size_t k = (size_t)g.range(1, 64);
        if (total / k > 3000)
            k = total / 3000 + 1;
        for (size_t i = 0; i < total; i += k)
            v.push_back(std::min(k, total - i));
        break;
    }
    default: {
        size_t left = total, mx = (size_t)(g.flip() ? 40 : 2000);
        Rng r(g.draw(1u << 30));
        while (left && v.size() < 3000) {
            size_t k = r.next() % mx + (empties ? 0 : 1);
            if (empties && r.next() % 16 == 0)
                k = 0;
            k = std::min(k, left);
            v.push_back(k);
            left -= k;
        }
        if (left)
            v.push_back(left);
        if (empties && g.chance(30))
            v.push_back(0);
    }
    }
    return v;
}
static inline size_t pick_buf(Gen &g)
{
    switch (g.below(4)) {
    case 0:
        return 4096;
    case 1:
        return 2;
    case 2:
        return (size_t)(2 * g.range(1, 40));
    default:
        return (size_t)(2 * g.range(1, 4000));
    }
}
} // namespace delta
