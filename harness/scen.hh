// Every kind of library operation as a scenario that can be run again and again, with points at which callbacks,
// allocations and backends can be made to fail.  Used by C26, C34 and C36.
#pragma once
#include <atomic>
#include "stream.hh"
#include "track.hh"
#include <bpak/crypto.h>
extern "C" {
#include <bpak/verify.h>
#include <bpak/merkle.h>
#include <bpak/key.h>
#include <bpak/keystore.h>
}
using namespace pbt;
using namespace model;
using namespace world;


// ---------------------------------------------------------------- injection
enum { IO = 1, HASH = 2, CRYPTO = 4, ALLOC = 8 };
struct Plan {
    unsigned mask = 0;
    uint64_t calls = 0, fail_at = 0;
    int kind = 0;       // 0 error code, 1 one byte short, 2 nothing transferred
    bool failed = false;
    const char *where = "";
    void arm(unsigned m, uint64_t k, int kd)
    {
        mask = m;
        calls = 0;
        fail_at = k;
        kind = kd;
        failed = false;
        where = "";
    }
    void (*hook)(const char *) = nullptr; // called at every such point
    bool hit(unsigned cat, const char *w)
    {
        if (hook)
            hook(w);
        if (!(mask & cat))
            return false;
        calls++;
        if (calls != fail_at)
            return false;
        failed = true;
        where = w;
        return true;
    }
};
static Plan P;
// results of the running scenario, if anybody is interested
static thread_local Bytes *REC = nullptr;
static void put_n(Bytes &b, size_t n)
{
    for (int i = 0; i < 8; i++)
        b.push_back((uint8_t)(n >> (8 * i)));
}
static void rec(const void *p, size_t n)
{
    if (REC) {
        put_n(*REC, n);
        REC->insert(REC->end(), (const uint8_t *)p, (const uint8_t *)p + n);
    }
}
static void rec(const Bytes &b) { rec(b.data(), b.size()); }
static void rec_file(const std::string &f)
{
    Bytes b;
    if (REC && read_file(f, b))
        rec(b);
}
static bool mask_signatures = false; // real signatures differ from run to run
static bool io_fail(const char *w, size_t n, ssize_t &r)
{
    if (!n || !P.hit(IO, w))
        return false;
    r = P.kind == 0 ? -BPAK_READ_ERROR : P.kind == 1 ? (ssize_t)(n - 1) : 0;
    return true;
}

// ---- hash backend with a heap object per context
struct HObj {
    unsigned kind;
    bool final_;
    Bytes data;
};
static std::atomic<uint64_t> h_live{0};
static int fh_init(bpak_hash_context *c)
{
    if (c->kind < 1 || c->kind > 3)
        return -BPAK_UNSUPPORTED_HASH_ALG;
    if (P.hit(HASH, "hash init"))
        return -BPAK_FAILED;
    c->backend.user_ctx = new HObj{(unsigned)c->kind, false, Bytes()};
    h_live++;
    return BPAK_OK;
}
static int fh_update(bpak_hash_context *c, const uint8_t *b, size_t n)
{
    if (P.hit(HASH, "hash update"))
        return -BPAK_FAILED;
    HObj *o = (HObj *)c->backend.user_ctx;
    o->data.insert(o->data.end(), b, b + n);
    return BPAK_OK;
}
static int fh_final(bpak_hash_context *c, uint8_t *b, size_t n, size_t *out)
{
    if (P.hit(HASH, "hash final"))
        return -BPAK_FAILED;
    HObj *o = (HObj *)c->backend.user_ctx;
    Bytes h = ref::hash(o->kind, o->data);
    if (n < h.size())
        return -BPAK_SIZE_ERROR;
    memcpy(b, h.data(), h.size());
    if (out)
        *out = h.size();
    return BPAK_OK;
}
static void fh_free(bpak_hash_context *c)
{
    HObj *o = (HObj *)c->backend.user_ctx; // released twice: reported by the address sanitizer
    if (o) {
        delete o;
        h_live--;
    }
}
// ---- signature backend: keys are the bytes of the file, a signature is a hash over key and digest
static Bytes fake_sig(const bpak_key *k, const uint8_t *h, size_t n)
{
    Bytes in(k->data, k->data + k->size);
    in.insert(in.end(), h, h + n);
    return ref::hash(2, in);
}
static int fc_verify(const uint8_t *s, size_t sn, const uint8_t *h, size_t hn, enum bpak_hash_kind, struct bpak_key *k, bool *v)
{
    *v = false;
    if (P.hit(CRYPTO, "verify")) {
        if (P.kind == 0)
            return -BPAK_FAILED;
        if (P.kind == 1) {
            *v = true; // an error counts whatever the flag says
            return -BPAK_VERIFY_FAIL;
        }
        return BPAK_OK; // not verified
    }
    Bytes w = fake_sig(k, h, hn);
    *v = w.size() == sn && !memcmp(w.data(), s, sn);
    return BPAK_OK;
}
static int fc_sign(const uint8_t *h, size_t hn, enum bpak_hash_kind, struct bpak_key *k, uint8_t *s, size_t *sn)
{
    if (P.hit(CRYPTO, "sign")) {
        memset(s, 0x77, std::min<size_t>(*sn, 20));
        return -BPAK_SIGN_FAIL;
    }
    Bytes w = fake_sig(k, h, hn);
    if (*sn < w.size())
        return -BPAK_SIZE_ERROR;
    memcpy(s, w.data(), w.size());
    *sn = w.size();
    return BPAK_OK;
}
static int make_key(const uint8_t *d, size_t n, struct bpak_key **out)
{
    bpak_key *k = (bpak_key *)bpak_calloc(1, sizeof(bpak_key) + n);
    if (!k)
        return -BPAK_FAILED;
    k->size = (uint16_t)n;
    k->kind = BPAK_KEY_PUB_PRIME256v1;
    memcpy(k->data, d, n);
    *out = k;
    return BPAK_OK;
}
static int fc_load(const char *f, struct bpak_key **out)
{
    if (P.hit(CRYPTO, "load key"))
        return -BPAK_KEY_DECODE;
    FILE *fp = fopen(f, "rb");
    if (!fp)
        return -BPAK_KEY_DECODE;
    uint8_t b[700];
    size_t n = fread(b, 1, sizeof b, fp);
    fclose(fp);
    int rc = make_key(b, n, out);
    if (rc == BPAK_OK) { // both halves of a pair are the name of the file up to the first dot
        std::string name = f;
        name = name.substr(name.rfind('/') + 1);
        name = name.substr(0, name.find('.'));
        (*out)->size = (uint16_t)std::min<size_t>(name.size(), (*out)->size);
        memcpy((*out)->data, name.data(), (*out)->size);
    }
    return rc;
}
static int fc_parse(const uint8_t *b, size_t n, struct bpak_key **out)
{
    if (P.hit(CRYPTO, "parse key"))
        return -BPAK_KEY_DECODE;
    return make_key(b, n, out);
}
// ---- allocator: blocks carry a header, so that a block of another allocator is recognised
static const uint64_t A_MAGIC = 0x51a7bead0badf00dull;
static std::atomic<uint64_t> a_live{0};
static std::atomic<bool> a_foreign{false};
static void *fa_calloc(size_t n, size_t sz)
{
    if (P.hit(ALLOC, "allocation"))
        return nullptr;
    if (sz && n > ((size_t)1 << 40) / sz)
        return nullptr;
    uint8_t *b = (uint8_t *)calloc(1, n * sz + 64);
    if (!b)
        return nullptr;
    memcpy(b, &A_MAGIC, 8);
    a_live++;
    return b + 64;
}
static void fa_free(void *p)
{
    if (!p)
        return;
    uint64_t m = 0;
    uint8_t *b = (uint8_t *)p - 64;
    uintptr_t a = (uintptr_t)b;
    (void)a;
    memcpy(&m, b, 8); // a block of another allocator: reported by the address sanitizer, or by the missing mark
    if (m != A_MAGIC) {
        a_foreign = true;
        return;
    }
    memset(b, 0, 8);
    a_live--;
    free(b);
}
static void backends(bool hash, bool crypto, bool alloc)
{
    if (hash)
        bpak_hash_setup(fh_init, fh_update, fh_final, fh_free);
    if (crypto)
        bpak_crypto_setup(fc_verify, fc_sign, fc_load, fc_load, fc_parse);
    if (alloc)
        bpak_set_calloc_free(fa_calloc, fa_free);
}

// ---------------------------------------------------------------- scenarios
// run() performs the operation once and releases everything; the result of the first failing step, or 0
struct Scenario {
    std::string what;
    std::function<int()> run;
    std::function<void()> reset; // restores files before each run
    int clean = 0;
    unsigned needs = 0;         // LZMA or TREES, which a build may lack
    std::function<int()> bare;  // what a build without hash trees should say instead
};
enum { LZMA = 1, TREES = 2, JUDGES_TREES = 4 };
static unsigned needs_of(const World &w, bool decode)
{
    unsigned n = 0;
    for (int k : w.coding)
        n |= k == 2 ? LZMA : k == 3 && decode ? TREES : 0;
    return n;
}
static ssize_t w_mem(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    if (io_fail("write", n, r))
        return r;
    Bytes *m = (Bytes *)u;
    if (o < 0 || (uint64_t)o + n > (64u << 20))
        return -BPAK_WRITE_ERROR;
    if (m->size() < (size_t)o + n)
        m->resize((size_t)o + n);
    if (n)
        memcpy(m->data() + o, b, n);
    return (ssize_t)n;
}
static ssize_t r_mem(off_t o, uint8_t *b, size_t n, void *u)
{
    ssize_t r;
    if (io_fail("read", n, r)) {
        if (r > 0)
            memset(b, 0x5a, (size_t)r);
        return r;
    }
    Bytes *m = (Bytes *)u;
    if (o < 0 || (uint64_t)o > m->size() || n > m->size() - (size_t)o)
        return -BPAK_READ_ERROR;
    if (n)
        memcpy(b, m->data() + o, n);
    return (ssize_t)n;
}
struct Two { // origin and output of a patch
    Bytes *org;
    Bytes out;
};
static ssize_t r_two(off_t o, uint8_t *b, size_t n, void *u) { return r_mem(o, b, n, ((Two *)u)->org); }
static ssize_t w_two(off_t o, uint8_t *b, size_t n, void *u) { return w_mem(o, b, n, &((Two *)u)->out); }

template <class T> struct Heap { // context at its exact size, filled with noise
    T *p = (T *)malloc(sizeof(T));
    Heap() { memset((void *)p, 0x5c, sizeof(T)); }
    ~Heap() { free(p); }
};

static void sc_delta(Case &c, Gen &g, Scenario &s)
{
    delta::Pair p = delta::make_pair(c, g, c.thorough ? 40000 : 8000);
    int comp = delta::pick_comp(g);
    s.what = strf("delta %s", delta::comp_name(comp));
    s.needs = comp == 2 ? LZMA : 0;
    auto o = std::make_shared<delta::Exact>(p.o), t = std::make_shared<delta::Exact>(p.t);
    s.run = [o, t, comp]() -> int {
        Heap<bpak_bsdiff_context> x;
        Bytes out;
        int rc = bpak_bsdiff_init(x.p, o->p, o->n, t->p, t->n, w_mem, 0, (enum bpak_compression)comp, &out);
        if (rc)
            return rc;
        ssize_t r = bpak_bsdiff(x.p);
        bpak_bsdiff_free(x.p);
        if (r >= 0)
            rec(out);
        return r < 0 ? (int)r : 0;
    };
}
static void sc_patch(Case &c, Gen &g, Scenario &s, bool hostile)
{
    delta::Pair p = delta::make_pair(c, g, c.thorough ? 40000 : 8000);
    int comp = delta::pick_comp(g);
    auto o = std::make_shared<Bytes>(p.o);
    Bytes d = delta::diff_ok(p.o, p.t, comp);
    size_t ann = d.size(); // announced
    bool abandon = false;
    if (hostile) {
        for (size_t k = (size_t)g.below(4); k && !d.empty(); k--)
            d[g.below(d.size())] ^= (uint8_t)g.range(1, 255);
        if (g.chance(30))
            d.resize((size_t)g.below(d.size() + 1));
        abandon = g.chance(30);
    }
    size_t bl = delta::pick_buf(g);
    std::vector<size_t> ch = delta::cuts(g, d.size());
    s.what = strf("patch %s, buffer %zu, %zu chunks%s%s", delta::comp_name(comp), bl, ch.size(), hostile ? ", damaged" : "", abandon ? ", abandoned" : "");
    s.needs = comp == 2 ? LZMA : 0;
    auto dd = std::make_shared<Bytes>(d);
    s.run = [o, dd, comp, bl, ch, ann, abandon]() -> int {
        Heap<bpak_bspatch_context> x;
        Two t;
        t.org = o.get();
        delta::Exact buf(bl);
        int rc = bpak_bspatch_init(x.p, buf.p, bl, ann, r_two, 0, w_two, 0, (enum bpak_compression)comp, &t);
        if (rc)
            return rc;
        size_t pos = 0;
        for (size_t k : ch) {
            delta::Exact piece(Bytes(dd->begin() + (long)pos, dd->begin() + (long)(pos + k)));
            rc = bpak_bspatch_write(x.p, piece.p, k);
            pos += k;
            if (rc)
                break;
        }
        if (!rc && !abandon) {
            ssize_t r = bpak_bspatch_final(x.p);
            rc = r < 0 ? (int)r : 0;
        }
        bpak_bspatch_free(x.p);
        if (!rc)
            rec(t.out);
        return rc;
    };
}
static void sc_tree(Case &c, Gen &g, Scenario &s, bool hostile)
{
    size_t blocks = (size_t)g.weighted({0, 4, 3, 2, 1, 1});
    if (g.chance(c.thorough ? 40 : 15))
        blocks = (size_t)g.range(1, c.thorough ? 400 : 140);
    size_t n = blocks * 4096, ann = n;
    if (hostile)
        switch (g.below(4)) {
        case 0: ann += 4096 * (size_t)g.range(1, 3); break;
        case 1: n -= (size_t)g.range(1, 4096); break;
        case 2: n += (size_t)g.range(1, 5000); break;
        default: ann += (size_t)g.range(1, 4095);
        }
    auto d = std::make_shared<Bytes>(g.content(n));
    Bytes salt = g.content((size_t)g.pick({32, 0, 1, 31}));
    std::vector<size_t> ch = delta::cuts(g, n);
    bool zf = g.flip();
    s.what = strf("tree of %zu bytes (announced %zu), salt %zu, %zu chunks%s", n, ann, salt.size(), ch.size(), zf ? ", zero filled" : "");
    s.run = [d, salt, ch, zf, ann]() -> int {
        Heap<bpak_merkle_context> x;
        Bytes out;
        if (!zf)
            out.resize(64 << 10);
        int rc = bpak_merkle_init(x.p, ann, salt.data(), salt.size(), w_mem, r_mem, 0, zf, &out);
        if (rc)
            return rc;
        size_t pos = 0;
        for (size_t k : ch) {
            delta::Exact piece(Bytes(d->begin() + (long)pos, d->begin() + (long)(pos + k)));
            rc = bpak_merkle_write_chunk(x.p, piece.p, k);
            pos += k;
            if (rc)
                break;
        }
        bpak_merkle_hash_t root;
        int fr = bpak_merkle_finish(x.p, root); // also ends a run that failed
        if (!rc && !fr) {
            rec(root, sizeof root);
            rec(out);
        }
        return rc ? rc : fr;
    };
}
static Arc arc_for(Case &c, Gen &g)
{
    arcgen::Opt o;
    o.max_parts = 4;
    o.max_size = 3000;
    o.max_blocks = 3;
    o.tree_pct = 40;
    Arc a = arcgen::make(g, o);
    arcgen::describe(c, a);
    return a;
}
static void sc_verify(Case &c, Gen &g, Scenario &s, bool hostile)
{
    Arc a = arc_for(c, g);
    auto f = std::make_shared<Bytes>(a.build());
    if (hostile && f->size() > 4096)
        for (size_t k = (size_t)g.range(1, 3); k; k--)
            (*f)[(size_t)g.range(4096, f->size() - 1)] ^= 1;
    if (hostile && g.chance(30) && f->size() > 4096)
        f->resize((size_t)g.range(4096, f->size()));
    unsigned op = (unsigned)g.below(4);
    s.what = strf("%s", op == 0 ? "verify_payload" : op == 1 ? "compute_payload_hash" : op == 2 ? "compute_header_hash" : "verify_merkle_tree");
    int tp = -1;
    for (size_t i = 0; i < a.parts.size(); i++)
        if (a.find(ref::tree_id(a.parts[i].id)) >= 0)
            tp = (int)i;
    if (op == 3 && tp < 0)
        op = 0, s.what = "verify_payload";
    off_t dof = 4096, tof = 4096;
    size_t dlen = 0;
    Bytes salt, root;
    if (op == 3) {
        int t = a.find(ref::tree_id(a.parts[(size_t)tp].id));
        for (int i = 0; i < tp; i++)
            dof += (off_t)a.parts[(size_t)i].stored.size();
        for (int i = 0; i < t; i++)
            tof += (off_t)a.parts[(size_t)i].stored.size();
        dlen = a.parts[(size_t)tp].stored.size();
        salt = a.metas[(size_t)a.find_meta(ID_SALT, a.parts[(size_t)tp].id)].data;
        root = a.metas[(size_t)a.find_meta(ID_ROOT, a.parts[(size_t)tp].id)].data;
    }
    if (op == 0 && tp >= 0) { // the tree is not looked at
        s.needs = TREES;
        s.bare = [f]() -> int {
            bpak_header h;
            memcpy(&h, f->data(), 4096);
            uint8_t out[64];
            size_t n = sizeof out;
            int rc = bpak_verify_compute_payload_hash(&h, r_mem, 4096, f.get(), out, &n);
            return rc ? rc : memcmp(out, h.payload_hash, n) ? -BPAK_BAD_PAYLOAD_HASH : 0;
        };
    } else if (op == 3)
        s.needs = TREES;
    s.run = [f, op, dof, tof, dlen, salt, root]() -> int {
        bpak_header h;
        memcpy(&h, f->data(), 4096);
        uint8_t out[64];
        size_t n = sizeof out;
        Bytes sl = salt, rt = root;
        int rc;
        switch (op) {
        case 0: return bpak_verify_payload(&h, r_mem, 4096, f.get());
        case 1:
        case 2:
            rc = op == 1 ? bpak_verify_compute_payload_hash(&h, r_mem, 4096, f.get(), out, &n) : bpak_verify_compute_header_hash(&h, out, &n);
            if (!rc)
                rec(out, n);
            return rc;
        default: return bpak_verify_merkle_tree(r_mem, dof, dlen, tof, rt.data(), sl.data(), f.get());
        }
    };
}
static void sc_stream(Case &c, Gen &g, Scenario &s, bool hostile)
{
    World w = make_world(c, g, true, true);
    auto org = std::make_shared<Bytes>(w.org.build());
    std::string pi = c.path("in"), po = c.path("org"), pe = c.path("enc");
    write_file(pi, w.in.build());
    write_file(po, *org);
    P.arm(0, 0, 0);
    int rc = file_code(true, pi, pe, w.has_delta || g.flip() ? po : "");
    CHECK(rc == BPAK_OK, "encoding failed (%d)", rc);
    auto enc = std::make_shared<Bytes>(slurp(pe));
    if (hostile) {
        for (size_t k = (size_t)g.below(3); k && enc->size() > 4096; k--)
            (*enc)[(size_t)g.range(4096, enc->size() - 1)] ^= (uint8_t)g.range(1, 255);
        if (g.chance(30))
            enc->resize((size_t)g.range(4096, enc->size()));
    }
    size_t bl = delta::pick_buf(g);
    uint64_t cutseed = g.draw(1u << 30);
    bool with_org = w.has_delta || g.flip();
    s.what = strf("streaming decode%s, buffer %zu", hostile ? " of damaged data" : "", bl);
    s.needs = needs_of(w, true);
    s.run = [enc, org, bl, cutseed, with_org]() -> int {
        struct L { // callbacks share one object
            Bytes out, org;
        };
        stream::Stream st;
        st.limit = 4u << 20;
        Slot *sl = (Slot *)calloc(1, sizeof(Slot));
        Gen cut;
        cut.slot = sl;
        cut.rng = Rng(cutseed);
        st.inj = [](size_t n, ssize_t &r) { return io_fail("decoder callback", n, r); };
        int rc = stream::stream_decode(*enc, with_org ? org.get() : nullptr, st, bl, &cut, false);
        free(sl);
        if (!rc) {
            rec(st.out);
            rec(st.hdr);
        }
        return rc;
    };
}
// a history on an archive file; every step must succeed unless hostile
static void sc_pkg(Case &c, Gen &g, Scenario &s, bool hostile, bool real_crypto)
{
    struct Step {
        int op;
        std::string a, b;
        unsigned x;
    };
    auto steps = std::make_shared<std::vector<Step>>();
    std::string file = c.path("arc");
    Arc base = arc_for(c, g);
    base.key_id = base.ks_id = 0;
    auto start = std::make_shared<Bytes>(base.build());
    bool fresh = g.chance(30);
    if (fresh)
        base = Arc(), start->clear();
    if (hostile && g.chance(20) && start->size() > 4096)
        start->resize((size_t)g.range(1, start->size()));
    std::vector<uint32_t> ids;
    for (auto &p : base.parts)
        ids.push_back(p.id);
    size_t n = (size_t)g.range(1, hostile ? 6 : 3);
    int nf = 0;
    std::string desc;
    for (size_t i = 0; i < n; i++) {
        Step st{};
        st.op = (int)g.weighted({3, 3, 3, 2, 4, 3, 2, 2, 2, 1});
        st.x = (unsigned)g.below(2);
        switch (st.op) {
        case 0:
        case 1: {
            st.a = c.path(strf("f%d", nf++));
            bool tree = st.op == 1;
            size_t sz = tree ? 4096 * (size_t)g.range(1, 3) : (size_t)g.edge_size(5000);
            if (hostile && g.chance(20))
                sz += 100;
            write_file(st.a, g.content(sz));
            if (hostile && g.chance(10))
                st.a = c.path("missing");
            if (hostile && g.chance(5))
                st.a = c.scratch; // a directory
            st.b = strf("n%zu", i);
            if (hostile && g.chance(20))
                st.b = "n0";
            ids.push_back(ref::id(st.b));
            break;
        }
        case 2: // add key
            st.a = keydir() + (hostile && g.chance(40) ? g.pick({"bad_k256.pub.pem", "bad_ed.pub.pem", "bad_rsa2048.pub.der", "p256a.p8.pem", "nosuch", "bad_p224.pub.der"})
                                                       : g.pick({"p256a.pub.pem", "p384a.pub.der", "p521b.pub.pem", "rsaa.pub.der"}));
            st.b = strf("n%zu", i);
            ids.push_back(ref::id(st.b));
            break;
        case 3: // sign
            st.a = keydir() + (hostile && g.chance(40) ? g.pick({"bad_k256.key.pem", "bad_ed.p8.pem", "bad_rsa2048.key.der", "p256a.pub.pem", "nosuch", "enc_p256a.key.pem"})
                                                       : g.pick({"p256a.key.pem", "p384a.p8.der", "p521b.p8.pem"}));
            break;
        case 4: // sign and verify
            st.a = keydir() + "p256a.p8.pem";
            st.b = keydir() + (hostile && g.chance(40) ? g.pick({"p256b.pub.pem", "bad_k256.pub.pem", "nosuch"}) : "p256a.pub.pem");
            break;
        case 5: // part hash, extract
        case 6:
        case 7: // delete
            if (ids.empty() && !hostile) {
                st.op = 8;
                break;
            }
            {
                size_t k = (size_t)g.below(ids.size() + (hostile ? 1 : 0));
                st.x = k < ids.size() ? ids[k] : 0x31337;
                if (st.op == 7 && k < ids.size())
                    ids.erase(ids.begin() + (long)k);
            }
            st.a = hostile && g.chance(20) ? c.path("no/such/dir") : c.path("out");
            break;
        case 9:
            ids.clear();
            break;
        }
        desc += strf(" %s(%s %s)", (const char *[]){"add", "add-tree", "add-key", "sign", "sign+verify", "sha256", "extract", "delete", "update-hash", "delete-all"}[st.op],
                     st.a.c_str(), st.b.c_str());
        steps->push_back(st);
    }
    s.what = "history:" + desc;
    for (auto &st : *steps)
        s.needs |= st.op == 1 ? TREES : st.op == 4 ? JUDGES_TREES : 0;
    (void)real_crypto;
    s.reset = [file, start, fresh]() {
        if (fresh)
            unlink(file.c_str());
        else
            write_file(file, *start);
    };
    s.run = [steps, file, fresh]() -> int {
        Pkg p;
        int rc = p.open_file(file, fresh ? "wb+" : "rb+");
        if (rc)
            return rc;
        for (auto &st : *steps) {
            uint8_t h[64];
            size_t hs = sizeof h;
            switch (st.op) {
            case 0: rc = bpak_pkg_add_file(p.p, st.a.c_str(), st.b.c_str(), st.x ? 1 : 0); break;
            case 1: rc = bpak_pkg_add_file_with_merkle_tree(p.p, st.a.c_str(), st.b.c_str(), 0); break;
            case 2: rc = bpak_pkg_add_key(p.p, st.a.c_str(), st.b.c_str(), 0); break;
            case 3: rc = bpak_pkg_sign(p.p, st.a.c_str()); break;
            case 4:
                rc = bpak_pkg_sign(p.p, st.a.c_str());
                if (!rc) {
                    bpak_key *k = nullptr;
                    rc = bpak_crypto_load_public_key(st.b.c_str(), &k);
                    if (!rc) {
                        rc = bpak_pkg_verify(p.p, k);
                        bpak_free(k);
                    }
                }
                break;
            case 5: rc = bpak_pkg_part_sha256(p.p, h, 32, st.x); break;
            case 6: rc = bpak_pkg_extract_file(p.p, st.x, st.a.c_str()); break;
            case 7: rc = bpak_pkg_delete_part(p.p, st.x, true); break;
            case 8: rc = bpak_pkg_update_hash(p.p, (char *)h, &hs); break;
            default: rc = bpak_pkg_delete_all_parts(p.p, true);
            }
            if (rc)
                break;
            if (st.op == 5)
                rec(h, 32);
            if (st.op == 6)
                rec_file(st.a);
            if (st.op == 8)
                rec(h, hs);
        }
        int cr = p.close();
        if (!rc && !cr) {
            Bytes b;
            if (REC && read_file(file, b)) {
                if (mask_signatures && b.size() >= 4096)
                    std::fill(b.begin() + ref::H_SIG, b.begin() + 4096, 0);
                rec(b);
            }
        }
        return rc ? rc : cr;
    };
}
static int hdr_refuse(bpak_header *, void *u) { return *(int *)u; }
static void sc_keystore(Case &c, Gen &g, Scenario &s, bool hostile)
{
    Arc a;
    a.add_meta(ID_KEYSTORE_PROVIDER, 0, Bytes{1, 2, 3, 4});
    static const char *kf[] = {"p256a.pub.der", "p384a.pub.der", "p521a.pub.der", "rsaa.pub.der"};
    size_t n = (size_t)g.range(1, 3);
    for (size_t i = 0; i < n; i++) {
        Bytes k = slurp(keydir() + kf[g.below(4)]);
        if (hostile && g.chance(30))
            k[g.below(k.size())] ^= (uint8_t)g.range(1, 255);
        if (hostile && g.chance(10))
            k = g.content((size_t)g.range(0, 1500));
        a.add(0x100 + (uint32_t)i, k, 0);
    }
    a.update_hash();
    Bytes f = a.build();
    if (hostile && g.chance(20))
        f.resize((size_t)g.below(f.size()));
    std::string p = c.path("ks");
    write_file(p, f);
    uint32_t id = 0x100 + (uint32_t)g.below(n + (hostile ? 1 : 0));
    uint32_t prov = hostile && g.chance(20) ? 5 : 0x04030201;
    int refuse = hostile && g.chance(20) ? -BPAK_FAILED : 0;
    bool cb = g.flip();
    unsigned mode = (unsigned)g.below(3);
    std::string kp = keydir() + (hostile && g.flip() ? g.pick({"bad_k256.pub.pem", "bad_ed.pub.der", "bad_rsa2048.pub.pem", "bad_bp384.pub.der", "nosuch", "bad_k256.key.pem", "bad_rsa3072.key.der", "bad_ed.p8.pem"})
                                                     : g.pick({"p256a.pub.pem", "rsaa.pub.pem", "p384b.p8.pem", "rsab.key.der"}));
    Bytes raw = slurp(keydir() + g.pick({"p256a.pub.der", "rsab.pub.der", "bad_k256.pub.der", "bad_rsa2048.pub.der", "bad_ed.pub.der", "p521a.pub.der"}));
    s.what = mode == 0 ? strf("keystore load %08x", id) : mode == 1 ? "load key " + kp : "parse key";
    s.run = [=]() -> int {
        bpak_key *k = nullptr;
        int rc, rf = refuse;
        if (mode == 0)
            rc = bpak_keystore_load_key_from_file(p.c_str(), prov, id, cb ? hdr_refuse : nullptr, &rf, &k);
        else if (mode == 1)
            rc = strstr(kp.c_str(), ".pub.") ? bpak_crypto_load_public_key(kp.c_str(), &k) : bpak_crypto_load_private_key(kp.c_str(), &k);
        else {
            delta::Exact e(raw);
            rc = bpak_crypto_parse_public_key(e.p, e.n, &k);
        }
        if (!rc) {
            rec(&k->kind, sizeof k->kind);
            rec(k->data, k->size);
            bpak_free(k);
        }
        return rc;
    };
}
static void sc_transport(Case &c, Gen &g, Scenario &s, bool hostile)
{
    World w = make_world(c, g, true, true);
    std::string pi = c.path("in"), po = c.path("org"), pe = c.path("enc"), px = c.path("res");
    write_file(pi, w.in.build());
    Bytes org = w.org.build();
    bool with = w.has_delta || g.flip();
    if (hostile && g.chance(20))
        with = !with;
    if (hostile && g.chance(20))
        org.resize((size_t)g.range(4096, org.size()));
    bool dec = g.flip();
    P.arm(0, 0, 0);
    if (dec) {
        write_file(po, w.org.build());
        int rc = file_code(true, pi, pe, w.has_delta ? po : "");
        CHECK(rc == BPAK_OK, "encoding failed (%d)", rc);
        Bytes e = slurp(pe);
        if (hostile) {
            for (size_t k = (size_t)g.below(3); k && e.size() > 4096; k--)
                e[(size_t)g.range(4096, e.size() - 1)] ^= (uint8_t)g.range(1, 255);
            if (g.chance(30))
                e.resize((size_t)g.range(4096, e.size()));
        }
        write_file(pe, e);
    }
    write_file(po, org);
    s.needs = needs_of(w, dec);
    s.what = strf("file %s %s origin%s", dec ? "decode" : "encode", with ? "with" : "without", hostile ? ", damaged" : "");
    s.run = [=]() -> int {
        Pkg i, o, x;
        int rc = i.open_file(dec ? pe : pi, "rb");
        if (!rc && with)
            rc = x.open_file(po, "rb");
        if (!rc)
            rc = o.open_file(px, "wb+");
        if (!rc)
            rc = dec ? bpak_pkg_transport_decode(i.p, o.p, with ? x.p : nullptr) : bpak_pkg_transport_encode(i.p, o.p, with ? x.p : nullptr);
        int cr = o.close();
        if (!rc && !cr)
            rec_file(px);
        return rc ? rc : cr;
    };
}

static Scenario pick_kind(Case &c, Gen &g, size_t kind, bool hostile, bool real_crypto = false)
{
    Scenario s;
    switch (kind) {
    case 0: sc_delta(c, g, s); break;
    case 1: sc_patch(c, g, s, hostile); break;
    case 2: sc_tree(c, g, s, hostile); break;
    case 3: sc_verify(c, g, s, hostile); break;
    case 4: sc_stream(c, g, s, hostile); break;
    case 5: sc_pkg(c, g, s, hostile, real_crypto); break;
    case 6: sc_keystore(c, g, s, hostile); break;
    default: sc_transport(c, g, s, hostile);
    }
    c.log("%s\n", s.what.c_str());
    return s;
}
static Scenario pick(Case &c, Gen &g, std::initializer_list<unsigned> weights, bool hostile, bool real_crypto = false)
{
    size_t kind = g.weighted(weights);
    return pick_kind(c, g, kind, hostile, real_crypto);
}
static int once(Scenario &s)
{
    if (s.reset)
        s.reset();
    srandom(1);
    return s.run();
}
static void sound_backends(const char *when)
{
    CHECK(h_live == 0, "%s: %llu hash contexts were not released", when, (unsigned long long)h_live);
    CHECK(!a_foreign, "%s: a block that the allocator did not hand out was given to its free function", when);
    CHECK(a_live == 0, "%s: %llu blocks of the allocator were not released", when, (unsigned long long)a_live);
}

