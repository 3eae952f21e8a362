// C34 failing callbacks, allocators and backends; C26 leftovers of operations; C37 whose memory the library uses.
// PBT_WRAP(malloc) PBT_WRAP(calloc) PBT_WRAP(realloc) PBT_WRAP(strdup) PBT_WRAP(strndup) PBT_WRAP(aligned_alloc) PBT_WRAP(posix_memalign)
#include "pbt.hh"
#include <cstdlib>
#include <cstring>
// calls of the code under test come here; those of the C library, of mbedTLS and of C++ do not
static const char *direct = nullptr;
static size_t direct_size = 0;
static bool watched = false;
static void went_past(const char *f, size_t n)
{
    if (watched && !direct) {
        direct = f;
        direct_size = n;
    }
}
extern "C" {
void *__real_malloc(size_t n);
void *__real_calloc(size_t n, size_t s);
void *__real_realloc(void *p, size_t n);
char *__real_strdup(const char *s);
char *__real_strndup(const char *s, size_t n);
void *__real_aligned_alloc(size_t a, size_t n);
int __real_posix_memalign(void **p, size_t a, size_t n);
void *__wrap_malloc(size_t n) { return went_past("malloc", n), __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t s) { return went_past("calloc", n * s), __real_calloc(n, s); }
void *__wrap_realloc(void *p, size_t n) { return went_past("realloc", n), __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return went_past("strdup", strlen(s)), __real_strdup(s); }
char *__wrap_strndup(const char *s, size_t n) { return went_past("strndup", n), __real_strndup(s, n); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return went_past("aligned_alloc", n), __real_aligned_alloc(a, n); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { return went_past("posix_memalign", n), __real_posix_memalign(p, a, n); }
}
#define malloc(n) __real_malloc(n) // of the harness
#define calloc(n, s) __real_calloc(n, s)
#include "scen.hh"

// ---------------------------------------------------------------- C34
static void inject(Case &c, unsigned mask, std::initializer_list<unsigned> weights, int kinds)
{
    Gen &g = c.g;
    h_live = 0;
    a_live = 0;
    a_foreign = false;
    P.arm(0, 0, 0);
    Scenario s = pick(c, g, weights, false);
    P.arm(mask, 0, 0);
    int rc = once(s);
    uint64_t n = P.calls;
    if (rc) {
        c.label("clean run refused");
        c.log("clean run: %d\n", rc);
        throw Discard{};
    }
    if (!n) {
        c.label("nothing to inject");
        return;
    }
    c.label(s.what.substr(0, s.what.find(' ')));
    std::vector<uint64_t> at;
    size_t max = c.thorough ? 40 : 12;
    if (n <= max)
        for (uint64_t k = 1; k <= n; k++)
            at.push_back(k);
    else {
        at = {1, n};
        while (at.size() < max)
            at.push_back(g.range(2, n - 1));
    }
    for (uint64_t k : at) {
        int kind = (int)g.below((uint64_t)kinds);
        P.arm(mask, k, kind);
        rc = once(s);
        bool failed = P.failed;
        std::string w = P.where;
        P.arm(0, 0, 0);
        CHECK(failed, "harness: call %llu of %llu did not happen again", (unsigned long long)k, (unsigned long long)n);
        CHECK(rc != 0, "call %llu of %llu (%s) failed (%s), but success was reported", (unsigned long long)k, (unsigned long long)n, w.c_str(),
              kind == 0 ? "error" : kind == 1 ? "one short / error" : "nothing transferred / no answer");
        std::string when = strf("after call %llu of %llu (%s) failed", (unsigned long long)k, (unsigned long long)n, w.c_str());
        CHECK(!a_foreign, "%s: a block that the allocator did not hand out was given to its free function", when.c_str());
    }
    c.nontrivial();
}
static void io(Case &c) { inject(c, IO, {3, 4, 3, 3, 5}, 3); }
static void hashing(Case &c)
{
    backends(true, true, false);
    inject(c, HASH, {0, 0, 3, 3, 3, 5, 0, 1}, 1);
}
static void crypto(Case &c)
{
    backends(true, true, false);
    inject(c, CRYPTO, {0, 0, 0, 0, 0, 5, 3}, 3);
}
static void allocs(Case &c)
{
    backends(false, false, true);
    inject(c, ALLOC, {3, 3, 0, 0, 3, 4, 2, 3}, 1);
}

// ---- sessions whose caller carries on after a failed call: they may fail, but not pretend to have succeeded
struct Mishaps { // the next failing call, again and again
    Gen &g;
    unsigned mask;
    uint64_t total;
    int left, happened = 0;
    std::string at;
    void next()
    {
        if (P.failed || !P.mask) {
            if (P.failed) {
                happened++;
                at += strf("%s%s (call %llu)", at.empty() ? "" : ", ", P.where, (unsigned long long)P.calls);
            }
            if (left > 0) {
                left--;
                P.arm(mask, g.range(1, std::max<uint64_t>(1, total)), (int)g.below(3));
            } else
                P.arm(1u << 30, 0, 0);
        }
    }
};
static void goon_tree(Case &c, Gen &g)
{
    size_t blocks = (size_t)g.weighted({0, 2, 3, 2, 2, 2});
    if (g.chance(20))
        blocks = (size_t)g.range(100, 300);
    size_t n = blocks * 4096;
    Bytes d = g.content(n), salt = g.content((size_t)g.pick({32, 0, 7}));
    std::vector<size_t> ch = delta::cuts(g, n);
    bool zf = g.flip();
    unsigned mask = g.chance(50) ? IO : g.chance(50) ? HASH : IO | HASH;
    Bytes want;
    bpak_merkle_hash_t wroot;
    uint64_t calls = 0;
    for (int round = 0; round < 2; round++) {
        Heap<bpak_merkle_context> x;
        Bytes out;
        if (!zf)
            out.resize(64 << 10);
        P.arm(mask, 0, 0);
        Mishaps m{g, mask, calls, round ? (int)g.range(1, 3) : 0, 0, ""};
        if (round)
            m.left--, P.arm(mask, g.range(1, std::max<uint64_t>(1, calls)), (int)g.below(3));
        int rc = bpak_merkle_init(x.p, n, salt.data(), salt.size(), w_mem, r_mem, 0, zf, &out);
        if (rc) { // nothing was begun
            CHECK(round, "starting failed: %d", rc);
            c.label("not begun");
            P.arm(0, 0, 0);
            return;
        }
        std::string told;
        size_t pos = 0;
        bool stop = false;
        for (size_t k : ch) {
            int tries = round ? (int)g.range(1, 3) : 1;
            for (int t = 0; t < tries; t++) {
                delta::Exact piece(Bytes(d.begin() + (long)pos, d.begin() + (long)(pos + k)));
                rc = bpak_merkle_write_chunk(x.p, piece.p, k);
                if (round)
                    m.next();
                if (!rc)
                    break;
                told += strf(" %d", rc);
                stop = g.chance(10);
            }
            pos += k;
            if (rc && stop)
                break;
        }
        bpak_merkle_hash_t root;
        memset(root, 0x5c, sizeof root);
        rc = bpak_merkle_finish(x.p, root);
        if (!round) {
            CHECK(!rc && told.empty(), "making a tree failed: %s, finished with %d", told.c_str(), rc);
            want = out;
            memcpy(wroot, root, 32);
            calls = P.calls;
            if (!calls) {
                c.label("nothing to inject");
                return;
            }
            continue;
        }
        if (P.failed)
            m.next();
        int f = m.happened;
        P.arm(0, 0, 0);
        if (!f) {
            c.label("no failure");
            return;
        }
        c.log("failing: %s; the calls reported%s, the end %d\n", m.at.c_str(), told.c_str(), rc);
        CHECK(rc || (!memcmp(root, wroot, 32) && out == want), "%s failed (reported:%s), the caller went on, and the tree was finished with success but is not the tree of the data",
              m.at.c_str(), told.empty() ? " nothing" : told.c_str());
        c.label(rc ? "tree: failed" : "tree: exact");
    }
    c.nontrivial();
}
static void goon_patch(Case &c, Gen &g)
{
    delta::Pair p = delta::make_pair(c, g, 6000);
    int comp = delta::pick_comp(g);
    Bytes d = delta::diff_ok(p.o, p.t, comp);
    size_t bl = delta::pick_buf(g);
    std::vector<size_t> ch = delta::cuts(g, d.size());
    c.log("patch %s, buffer %zu, %zu chunks\n", delta::comp_name(comp), bl, ch.size());
    uint64_t calls = 0;
    for (int round = 0; round < 2; round++) {
        Heap<bpak_bspatch_context> x;
        Two t;
        t.org = &p.o;
        delta::Exact buf(bl);
        P.arm(IO, 0, 0);
        Mishaps m{g, IO, calls, round ? (int)g.range(1, 3) : 0, 0, ""};
        if (round)
            m.left--, P.arm(IO, g.range(1, std::max<uint64_t>(1, calls)), (int)g.below(3));
        int rc = bpak_bspatch_init(x.p, buf.p, bl, d.size(), r_two, 0, w_two, 0, (enum bpak_compression)comp, &t);
        CHECK(!rc, "starting a patch failed: %d", rc);
        std::string told;
        size_t pos = 0;
        bool stop = false;
        for (size_t k : ch) {
            int tries = round ? (int)g.range(1, 3) : 1;
            for (int i = 0; i < tries; i++) {
                delta::Exact piece(Bytes(d.begin() + (long)pos, d.begin() + (long)(pos + k)));
                rc = bpak_bspatch_write(x.p, piece.p, k);
                if (round)
                    m.next();
                if (!rc)
                    break;
                told += strf(" %d", rc);
                stop = g.chance(10);
            }
            pos += k;
            if (rc && stop)
                break;
        }
        ssize_t r = bpak_bspatch_final(x.p);
        bpak_bspatch_free(x.p);
        if (!round) {
            CHECK(told.empty() && r == (ssize_t)p.t.size() && t.out == p.t, "applying a patch failed: %s, finished with %lld", told.c_str(), (long long)r);
            calls = P.calls;
            if (!calls) {
                c.label("nothing to inject");
                return;
            }
            continue;
        }
        if (P.failed)
            m.next();
        int f = m.happened;
        P.arm(0, 0, 0);
        if (!f) {
            c.label("no failure");
            return;
        }
        c.log("failing: %s; the calls reported%s, the end %lld\n", m.at.c_str(), told.c_str(), (long long)r);
        CHECK(r != (ssize_t)p.t.size() || t.out == p.t, "%s failed (reported:%s), the caller went on, and the patch ended with the right length but other content", m.at.c_str(),
              told.empty() ? " nothing" : told.c_str());
        c.label(r != (ssize_t)p.t.size() ? "patch: failed" : "patch: exact");
    }
    c.nontrivial();
}
static void goon_stream(Case &c, Gen &g)
{
    World w = make_world(c, g, true, true);
    Bytes org = w.org.build();
    std::string pi = c.path("in"), po = c.path("org"), pe = c.path("enc");
    write_file(pi, w.in.build());
    write_file(po, org);
    P.arm(0, 0, 0);
    int rc = file_code(true, pi, pe, w.has_delta || g.flip() ? po : "");
    CHECK(rc == BPAK_OK, "encoding failed (%d)", rc);
    Bytes enc = slurp(pe);
    size_t bl = delta::pick_buf(g);
    unsigned mask = g.chance(70) ? IO : IO | HASH;
    Bytes opay = stream::payload(org), want;
    uint64_t calls = 0;
    for (int round = 0; round < 2; round++) {
        stream::Stream st;
        st.limit = 4u << 20;
        st.inj = [](size_t n, ssize_t &r) { return io_fail("decoder callback", n, r); };
        st.origin = &opay;
        auto hp = std::make_unique<bpak_header>(), ho = std::make_unique<bpak_header>();
        memcpy(hp.get(), enc.data(), 4096);
        memcpy(ho.get(), org.data(), 4096);
        Heap<bpak_transport_decode> x;
        delta::Exact buf(bl);
        st.max_read = bl / 2;
        P.arm(mask, 0, 0);
        Mishaps m{g, mask, calls, round ? (int)g.range(1, 3) : 0, 0, ""};
        if (round)
            m.left--, P.arm(mask, g.range(1, std::max<uint64_t>(1, calls)), (int)g.below(3));
        rc = bpak_transport_decode_init(x.p, buf.p, bl, hp.get(), stream::st_write, stream::st_read_out, 0, stream::st_hdr, &st);
        CHECK(!rc, "starting to decode: %d", rc);
        rc = bpak_transport_decode_set_origin(x.p, ho.get(), stream::st_read_org, 0);
        CHECK(!rc, "setting the origin: %d", rc);
        size_t pos = 4096, dpos = 0;
        std::string told;
        std::vector<std::pair<size_t, size_t>> done; // parts that were finished with success
        bool lost = false;                           // a part that was given up
        for (int i = 0; i < BPAK_MAX_PARTS && hp->parts[i].id; i++) {
            bpak_part_header *p = &hp->parts[i];
            size_t sz = (size_t)p->size + p->pad_bytes, n = bpak_part_size(p);
            bool ok = false;
            for (int attempt = 0; attempt < 3 && !ok; attempt++) {
                rc = bpak_transport_decode_start(x.p, p);
                if (round)
                    m.next();
                if (rc) {
                    told += strf(" start %d", rc);
                    continue;
                }
                std::vector<size_t> ch = n ? delta::cuts(g, n) : std::vector<size_t>{};
                size_t q = pos;
                bool failed = false;
                for (size_t k : ch) {
                    int tries = round ? (int)g.range(1, 2) : 1;
                    for (int t = 0; t < tries; t++) {
                        delta::Exact piece(Bytes(enc.begin() + (long)q, enc.begin() + (long)(q + k)));
                        rc = bpak_transport_decode_write_chunk(x.p, piece.p, k);
                        if (round)
                            m.next();
                        if (!rc)
                            break;
                        told += strf(" write %d", rc);
                    }
                    failed |= rc != 0;
                    q += k;
                }
                if (failed && g.chance(60))
                    continue; // from the start of the part
                rc = bpak_transport_decode_finish(x.p);
                if (round)
                    m.next();
                if (rc) {
                    told += strf(" finish %d", rc);
                    break;
                }
                ok = true;
            }
            if (!ok)
                lost = true;
            else
                done.push_back({dpos, sz});
            pos += n;
            dpos += sz;
            if (lost) // later parts may need this one
                break;
        }
        bpak_transport_decode_free(x.p);
        st.origin = nullptr;
        if (!round) {
            CHECK(told.empty(), "decoding failed:%s", told.c_str());
            want = st.out;
            want.resize(dpos);
            calls = P.calls;
            continue;
        }
        if (P.failed)
            m.next();
        int f = m.happened;
        P.arm(0, 0, 0);
        if (!f) {
            c.label("no failure");
            return;
        }
        c.log("failing: %s; the calls reported%s\n", m.at.c_str(), told.c_str());
        for (auto &r : done) {
            CHECK(st.out.size() >= r.first + r.second || !r.second, "%s failed (reported:%s), the caller went on, and a part was finished with success but not written", m.at.c_str(), told.c_str());
            CHECK(!r.second || !memcmp(&st.out[r.first], &want[r.first], r.second), "%s failed (reported:%s), the caller went on, and a part was finished with success but has other content",
                  m.at.c_str(), told.c_str());
        }
        c.label(lost ? "stream: given up" : "stream: exact");
    }
    c.nontrivial();
}
static void going_on(Case &c)
{
    Gen &g = c.g;
    backends(g.flip(), false, false);
    h_live = 0;
    a_live = 0;
    switch (g.weighted({3, 3, 4})) {
    case 0:
        backends(true, false, false);
        goon_tree(c, g);
        break;
    case 1: goon_patch(c, g); break;
    default: backends(true, false, false); goon_stream(c, g);
    }
    P.arm(0, 0, 0);
    sound_backends("at the end");
}

// ---------------------------------------------------------------- C26
static void leaks(Case &c, Scenario &s, unsigned mask, bool reps)
{
    Gen &g = c.g;
    track::setup();
    P.arm(mask, 0, 0);
    (void)once(s); // warm up: buffers that live as long as the process
    uint64_t n = P.calls;
    size_t rounds = mask && n ? (size_t)g.range(1, 4) : 1;
    (void)reps;
    for (size_t k = 0; k < rounds; k++) {
        P.arm(mask, mask && n ? g.range(1, n) : 0, (int)g.below(3));
        if (s.reset)
            s.reset();
        std::set<int> f0 = track::fds();
        size_t m0 = track::maps(c.scratch);
        srandom(1);
        track::begin();
        int rc = s.run();
        track::Left l = track::end();
        std::string when = strf("result %d%s%s", rc, P.failed ? ", failing " : "", P.where);
        P.arm(0, 0, 0);
        CHECK(!track::overflow, "harness: too many blocks");
        CHECK(!l.blocks, "%s: %zu blocks (%zu bytes) stay allocated, the first of %zu bytes (allocation %u)", when.c_str(), l.blocks, l.bytes, l.first, l.firstseq);
        std::set<int> f1 = track::fds();
        CHECK(f0 == f1, "%s: %zu file descriptors before, %zu after", when.c_str(), f0.size(), f1.size());
        size_t m1 = track::maps(c.scratch);
        CHECK(m0 == m1, "%s: %zu mappings of files before, %zu after", when.c_str(), m0, m1);
        sound_backends(when.c_str());
        c.label(rc ? "ended with an error" : "succeeded");
    }
    c.nontrivial();
}
static void left(Case &c)
{
    Gen &g = c.g;
    Scenario s = pick(c, g, {2, 3, 2, 2, 4, 6, 4, 5}, g.chance(70));
    leaks(c, s, 0, true);
}
static void left_io(Case &c)
{
    Gen &g = c.g;
    backends(true, false, true);
    h_live = 0;
    a_live = 0;
    a_foreign = false;
    Scenario s = pick(c, g, {2, 3, 3, 3, 5, 3, 1, 3}, g.chance(30));
    leaks(c, s, IO | HASH, true);
}
static void left_alloc(Case &c)
{
    Gen &g = c.g;
    backends(false, false, true);
    h_live = 0;
    a_live = 0;
    a_foreign = false;
    Scenario s = pick(c, g, {4, 3, 0, 0, 3, 4, 3, 4}, g.chance(30));
    leaks(c, s, ALLOC, true);
}

// ---------------------------------------------------------------- C37
static void whose_memory(Case &c)
{
    Gen &g = c.g;
    backends(g.flip(), false, true);
    h_live = 0;
    a_live = 0;
    a_foreign = false;
    P.arm(ALLOC, 0, 0); // counts the calls
    if (g.chance(20)) { // half an allocator is none: what is installed stays
        int rc = g.flip() ? bpak_set_calloc_free(nullptr, fa_free) : bpak_set_calloc_free(fa_calloc, nullptr);
        CHECK(rc != BPAK_OK, "half an allocator was installed with success");
    }
    Scenario s = pick(c, g, {4, 3, 2, 2, 4, 5, 3, 4}, g.chance(25));
    if (s.reset)
        s.reset();
    srandom(1);
    P.arm(ALLOC, 0, 0);
    direct = nullptr;
    watched = true;
    int rc = s.run();
    watched = false;
    uint64_t n = P.calls;
    P.arm(0, 0, 0);
    CHECK(!direct, "%s (result %d): %s(%zu) was called although there is an allocator", s.what.c_str(), rc, direct, direct_size);
    sound_backends(s.what.c_str());
    c.label(n ? "took memory" : "took none");
    if (n)
        c.nontrivial();
}
static std::vector<Prop> props = {
    {"C34", "callbacks", io, 4500, 36000,
     "delta, patch, tree, verification and streaming decode runs that succeed, repeated with one read/write callback call failing (error code, one byte short, nothing): every call for up to 12 (40) calls, sampled otherwise; non-trivial: at least one call was made to fail and the failure reached the operation", 60},
    {"C34", "hash backend", hashing, 3600, 28800, "trees, verification, hashes and archive histories with one call of a user hash backend failing; non-trivial: as above", 60},
    {"C34", "crypto backend", crypto, 3000, 24000, "archive histories with signing, verification, adding and loading keys, with one call of the user key/signature backend failing (errors, errors with a positive answer, negative answers); non-trivial: as above", 60},
    {"C34", "allocations", allocs, 3000, 24000, "all operations with one call of a user allocation function failing; non-trivial: as above", 60},
    {"C34", "going on", going_on, 7500, 60000,
     "trees, patches and streaming decoding whose caller does not stop at a failed call but retries it, goes on with the next chunk or starts the part again: what ends in success is exact; non-trivial: at least one call failed", 60},
    {"C26", "operations", left, 12000, 96000,
     "every kind of library operation on valid and damaged input, succeeding and failing; heap blocks, descriptors and file mappings before and after are compared; non-trivial: the operation ran", 60},
    {"C26", "failing callbacks", left_io, 8000, 64000, "the same with failing read/write callbacks and hash backends, and a user allocator whose blocks are counted; non-trivial: the operation ran", 60},
    {"C37", "allocator", whose_memory, 2500, 50000, "every kind of operation on good and damaged input with an allocator of the user: no memory comes from elsewhere, and every block goes back to it; non-trivial: the operation took memory", 60},
    {"C26", "failing allocations", left_alloc, 6000, 48000, "the same with failing allocations; non-trivial: the operation ran", 60},
};
PBT_MAIN(props)
