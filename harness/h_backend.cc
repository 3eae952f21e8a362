// C37 hashing, signing and key handling go through the functions the user installed.
#include "world.hh"
#include "stream.hh"
#include <bpak/crypto.h>
extern "C" {
#include <bpak/key.h>
#include <bpak/keystore.h>
#include <bpak/verify.h>
#include <bpak/merkle.h>
}
using namespace pbt;
using namespace model;
using namespace world;

// ---------------------------------------------------------------- hash functions: other results than the built-in ones, and a record of their use
struct HObj {
    uint64_t magic = 0x4a5b;
    unsigned kind;
    int state = 0; // 0 initialised, 1 final
    Bytes data;
};
static std::string h_bad;
static std::set<HObj *> h_live;
static uint64_t h_used = 0, h_kinds = 0;
static void note(const std::string &s)
{
    if (h_bad.empty())
        h_bad = s;
}
static HObj *obj(bpak_hash_context *c, const char *what)
{
    HObj *o = (HObj *)c->backend.user_ctx;
    if (!h_live.count(o)) {
        note(strf("%s for a context that is not initialised", what));
        return nullptr;
    }
    if ((unsigned)c->kind != o->kind)
        note(strf("%s with kind %u, initialised with %u", what, (unsigned)c->kind, o->kind));
    return o;
}
static int t_init(bpak_hash_context *c)
{
    if (c->kind < 1 || c->kind > 3)
        return -BPAK_UNSUPPORTED_HASH_ALG;
    HObj *o = new HObj;
    o->kind = (unsigned)c->kind;
    c->backend.user_ctx = o;
    h_live.insert(o);
    h_used++;
    h_kinds |= 1u << o->kind;
    return BPAK_OK;
}
static int t_update(bpak_hash_context *c, const uint8_t *b, size_t n)
{
    HObj *o = obj(c, "update");
    if (!o)
        return -BPAK_FAILED;
    if (o->state)
        note("update after the result was taken");
    o->data.insert(o->data.end(), b, b + n);
    return BPAK_OK;
}
static int t_final(bpak_hash_context *c, uint8_t *b, size_t n, size_t *out)
{
    HObj *o = obj(c, "final");
    if (!o)
        return -BPAK_FAILED;
    if (o->state)
        note("the result was taken twice");
    o->state = 1;
    Bytes h = ref::hash(o->kind, o->data);
    if (n < h.size()) {
        note(strf("room for %zu bytes of a hash of %zu", n, h.size()));
        return -BPAK_SIZE_ERROR;
    }
    memcpy(b, h.data(), h.size());
    if (out)
        *out = h.size();
    return BPAK_OK;
}
static void t_free(bpak_hash_context *c)
{
    HObj *o = (HObj *)c->backend.user_ctx;
    if (!h_live.erase(o)) {
        if (o)
            note("a context was released that is not initialised");
        return;
    }
    delete o;
}

// ---------------------------------------------------------------- signature functions
static struct {
    Bytes key, hash, sig;
    unsigned kind;
    size_t room;
    uint64_t signs, verifies, pub, priv, parses;
    std::string file;
    bool answer;
    size_t sig_len; // of the signatures handed out
} S;
static Bytes sig_for(const Bytes &key, const Bytes &h, size_t len)
{
    Bytes in = key;
    in.insert(in.end(), h.begin(), h.end());
    Bytes r;
    for (uint8_t i = 0; r.size() < len; i++) {
        Bytes q = in;
        q.push_back(i);
        Bytes w = ref::hash(3, q);
        r.insert(r.end(), w.begin(), w.end());
    }
    r.resize(len);
    return r;
}
static int s_sign(const uint8_t *h, size_t hn, enum bpak_hash_kind kind, struct bpak_key *k, uint8_t *s, size_t *sn)
{
    S.signs++;
    S.hash.assign(h, h + hn);
    S.kind = (unsigned)kind;
    S.key.assign(k->data, k->data + k->size);
    S.room = *sn;
    S.sig = sig_for(S.key, S.hash, S.sig_len);
    if (*sn < S.sig.size())
        return -BPAK_SIZE_ERROR;
    memcpy(s, S.sig.data(), S.sig.size());
    *sn = S.sig.size();
    return BPAK_OK;
}
static int s_verify(const uint8_t *s, size_t sn, const uint8_t *h, size_t hn, enum bpak_hash_kind kind, struct bpak_key *k, bool *v)
{
    S.verifies++;
    S.hash.assign(h, h + hn);
    S.kind = (unsigned)kind;
    S.key.assign(k->data, k->data + k->size);
    S.sig.assign(s, s + sn);
    *v = S.answer = sn && S.sig == sig_for(S.key, S.hash, sn);
    return BPAK_OK;
}
static int mk(const Bytes &d, struct bpak_key **out)
{
    bpak_key *k = (bpak_key *)bpak_calloc(1, sizeof(bpak_key) + d.size());
    if (!k)
        return -BPAK_FAILED;
    k->size = (uint16_t)d.size();
    k->kind = BPAK_KEY_PUB_PRIME256v1;
    if (!d.empty())
        memcpy(k->data, d.data(), d.size());
    *out = k;
    return BPAK_OK;
}
// keys of this kind: "PUB" or "PRV" and any bytes; the same bytes belong together
static int load(const char *f, const char *kind, struct bpak_key **out)
{
    S.file = f;
    Bytes d;
    if (!read_file(f, d) || d.size() < 3 || memcmp(d.data(), kind, 3))
        return -BPAK_KEY_DECODE;
    return mk(Bytes(d.begin() + 3, d.end()), out);
}
static int s_pub(const char *f, struct bpak_key **out) { return S.pub++, load(f, "PUB", out); }
static int s_priv(const char *f, struct bpak_key **out) { return S.priv++, load(f, "PRV", out); }
static int s_parse(const uint8_t *b, size_t n, struct bpak_key **out)
{
    S.parses++;
    return mk(Bytes(b, b + n), out);
}
static void install() { bpak_hash_setup(t_init, t_update, t_final, t_free), bpak_crypto_setup(s_verify, s_sign, s_pub, s_priv, s_parse); }
static void start(Gen &g)
{
    for (HObj *o : h_live)
        delete o;
    h_live.clear();
    h_bad.clear();
    h_used = h_kinds = 0;
    S = {};
    S.sig_len = (size_t)g.pick({64, 48, 1, 256, 511, 512});
    ref::tag() = g.content((size_t)g.range(1, 20));
    ref::tag().push_back(1);
    install();
}
static void order(const char *what)
{
    CHECK(h_bad.empty(), "%s: hash functions: %s", what, h_bad.c_str());
    CHECK(h_live.empty(), "%s: %zu hash contexts were not released", what, h_live.size());
}
static Arc base_arc(Case &c, Gen &g)
{
    arcgen::Opt o;
    o.max_parts = 4;
    o.max_size = 5000;
    o.max_blocks = 3;
    o.tree_pct = 35;
    Arc a = arcgen::make(g, o);
    arcgen::describe(c, a);
    return a;
}
static ssize_t r_file(off_t o, uint8_t *b, size_t n, void *u)
{
    Bytes *m = (Bytes *)u;
    if (o < 0 || (uint64_t)o > m->size() || n > m->size() - (size_t)o)
        return -BPAK_READ_ERROR;
    memcpy(b, m->data() + o, n);
    return (ssize_t)n;
}

static void histories(Case &c)
{
    Gen &g = c.g;
    start(g);
    Arc m = base_arc(c, g);
    std::string file = c.path("arc"), kpub = c.path("pub"), kprv = c.path("prv"), kother = c.path("other");
    write_file(file, m.build());
    Bytes key = g.content((size_t)g.range(1, 300));
    auto keyfile = [&](const std::string &f, const char *k, const Bytes &d) {
        Bytes b(k, k + 3);
        b.insert(b.end(), d.begin(), d.end());
        write_file(f, b);
    };
    Bytes other = key;
    other[g.below(other.size())] ^= 0x10;
    keyfile(kpub, "PUB", key);
    keyfile(kprv, "PRV", key);
    keyfile(kother, "PUB", other);
    Pkg p;
    CHECK(p.open_file(file, "rb+") == BPAK_OK, "cannot open the archive");
    size_t n = (size_t)g.range(1, 7);
    std::vector<MMeta> dummy;
    for (size_t i = 0; i < n; i++) {
        unsigned op = (unsigned)g.weighted({3, 3, 2, 3, 3, 3, 2, 2, 2});
        std::string in = c.path("in"), name = strf("n%zu", i);
        uint64_t used = h_used;
        int rc = 0;
        switch (op) {
        case 0: {
            Bytes d = g.content((size_t)g.edge_size(5000));
            write_file(in, d);
            uint8_t fl = g.chance(20) ? 1 : 0;
            c.log("add %zu bytes\n", d.size());
            rc = bpak_pkg_add_file(p.p, in.c_str(), name.c_str(), fl);
            CHECK(rc == BPAK_OK, "add: %d", rc);
            m.add(ref::id(name), d, fl);
            m.update_hash();
            CHECK(h_used > used, "add: no hash was computed");
            break;
        }
        case 1: {
            Bytes d = g.content(4096 * (size_t)g.range(1, 3));
            write_file(in, d);
            c.log("add %zu bytes with a tree\n", d.size());
            if (m.metas.size() > 30 || m.meta_used() + 64 > 1920)
                break;
            rc = bpak_pkg_add_file_with_merkle_tree(p.p, in.c_str(), name.c_str(), 0);
            CHECK(rc == BPAK_OK, "add with tree: %d", rc);
            bpak_meta_header *sm = nullptr;
            CHECK(bpak_get_meta(bpak_pkg_header(p.p), ID_SALT, ref::id(name), &sm) == BPAK_OK, "no salt");
            uint8_t *sp = bpak_get_meta_ptr(bpak_pkg_header(p.p), sm, uint8_t);
            m.add_with_tree(ref::id(name), d, Bytes(sp, sp + 32), 0);
            m.update_hash();
            break;
        }
        case 2: {
            Bytes k = g.content((size_t)g.range(1, 600));
            keyfile(in, "PUB", k);
            c.log("add a key of %zu bytes\n", k.size());
            uint64_t pub = S.pub;
            rc = bpak_pkg_add_key(p.p, in.c_str(), name.c_str(), 0);
            CHECK(rc == BPAK_OK, "add key: %d", rc);
            CHECK(S.pub == pub + 1 && S.file == in, "add key: the key was not loaded with the installed function");
            m.add(ref::id(name), k, 0);
            m.update_hash();
            break;
        }
        case 3: {
            c.log("sign\n");
            uint64_t sg = S.signs, pv = S.priv;
            rc = bpak_pkg_sign(p.p, kprv.c_str());
            CHECK(rc == BPAK_OK, "sign: %d", rc);
            CHECK(S.signs == sg + 1 && S.priv == pv + 1, "sign: the installed functions were not used");
            m.update_hash();
            m.sig.clear();
            Bytes want = ref::header_digest(m.build());
            CHECK(S.hash == want, "sign: another digest was signed: %s", diff_desc(S.hash, want).c_str());
            CHECK(S.kind == m.hash_kind && S.key == key && S.room >= 512, "sign: kind %u (expected %u), key %s, room %zu", S.kind, m.hash_kind, S.key == key ? "right" : "wrong", S.room);
            m.sig = S.sig;
            break;
        }
        case 4: {
            bool good = g.chance(70);
            c.log("verify with %s key\n", good ? "the" : "another");
            bpak_key *k = nullptr;
            CHECK(bpak_crypto_load_public_key((good ? kpub : kother).c_str(), &k) == BPAK_OK, "cannot load the key");
            uint64_t vf = S.verifies;
            rc = bpak_pkg_verify(p.p, k);
            bpak_free(k);
            bool coded = false;
            for (auto &q : m.parts)
                coded = coded || (q.flags & 2);
            Bytes f = m.build();
            Bytes want = ref::header_digest(f);
            bool valid = good && !m.sig.empty() && m.sig == sig_for(key, want, m.sig.size());
            CHECK(S.verifies == vf + 1, "verify: the installed function was called %llu times", (unsigned long long)(S.verifies - vf));
            CHECK(S.hash == want && S.kind == m.hash_kind && S.sig == m.sig && S.key == (good ? key : other), "verify: digest %s, kind %u, signature %s, key %s", S.hash == want ? "right" : "wrong", S.kind,
                  S.sig == m.sig ? "right" : "wrong", S.key == (good ? key : other) ? "right" : "wrong");
            if (!valid)
                CHECK(rc != BPAK_OK, "verify: accepted although the installed function said no");
            else if (!coded && tree_state(f) == 1)
                CHECK(rc == BPAK_OK, "verify: %d although the installed function said yes", rc);
            break;
        }
        case 5:
            if (m.parts.empty())
                break;
            {
                size_t k = g.below(m.parts.size());
                c.log("delete %08x\n", m.parts[k].id);
                uint32_t id = m.parts[k].id;
                rc = bpak_pkg_delete_part(p.p, id, true);
                CHECK(rc == BPAK_OK, "delete: %d", rc);
                m.parts.erase(m.parts.begin() + (long)k);
                m.drop_meta_of(id);
                m.update_hash();
                break;
            }
        case 6: {
            if (m.parts.empty())
                break;
            const MPart &q = m.parts[g.below(m.parts.size())];
            uint8_t h[32];
            c.log("hash of part %08x\n", q.id);
            rc = bpak_pkg_part_sha256(p.p, h, 32, q.id);
            CHECK(rc == BPAK_OK, "part hash: %d", rc);
            Bytes want = ref::hash(1, q.data());
            CHECK(Bytes(h, h + 32) == want, "part hash is not that of the installed functions");
            break;
        }
        case 7: {
            uint8_t h[64];
            size_t hs = sizeof h;
            c.log("update hash\n");
            rc = bpak_pkg_update_hash(p.p, (char *)h, &hs);
            CHECK(rc == BPAK_OK, "update hash: %d", rc);
            m.update_hash();
            Bytes want = ref::header_digest(m.build());
            CHECK(Bytes(h, h + hs) == want, "header hash: %s", diff_desc(Bytes(h, h + hs), want).c_str());
            break;
        }
        default: {
            Bytes f = m.build();
            c.log("payload verification\n");
            bpak_header hd;
            memcpy(&hd, f.data(), 4096);
            rc = bpak_verify_payload(&hd, r_file, 4096, &f);
            if (tree_state(f) == 1)
                CHECK(rc == BPAK_OK, "payload verification: %d", rc);
            if (f.size() > 4096) {
                Bytes b = f;
                size_t at = 0, off = 4096;
                for (auto &q : m.parts) {
                    if (!(q.flags & 1) && !q.stored.empty())
                        at = off + g.below(q.stored.size());
                    off += q.stored.size();
                }
                if (at) {
                    b[at] ^= 1;
                    rc = bpak_verify_payload(&hd, r_file, 4096, &b);
                    CHECK(rc != BPAK_OK, "payload verification accepts other data (byte %zu)", at);
                }
            }
        }
        }
        order("after an operation");
        CHECK(!memcmp(bpak_pkg_header(p.p)->payload_hash, m.phash.data(), ref::hash_len(m.hash_kind)), "the payload hash is not that of the installed functions");
    }
    CHECK(p.close() == BPAK_OK, "close");
    Bytes got = slurp(file), want = m.build();
    // the tail of a longer hash may stay
    CHECK(got == want, "the archive: %s", cmp(got, want).c_str());
    order("at the end");
    if (h_used)
        c.nontrivial();
}

static void transport(Case &c)
{
    Gen &g = c.g;
    start(g);
    World w = make_world(c, g);
    std::string in = c.path("in"), org = c.path("org"), enc = c.path("enc"), dec = c.path("dec");
    Bytes inf = w.in.build(), orgf = w.org.build();
    write_file(in, inf);
    write_file(org, orgf);
    int rc = file_code(true, in, enc, org);
    CHECK(rc == BPAK_OK, "encode: %d", rc);
    Bytes encf = slurp(enc);
    check_encoded(w, orgf, encf);
    order("encode");
    rc = file_code(false, enc, dec, org);
    CHECK(rc == BPAK_OK, "decode: %d", rc);
    CHECK(slurp(dec) == inf, "decoded archive: %s", cmp(slurp(dec), inf).c_str());
    order("decode");
    stream::Stream st;
    rc = stream::stream_decode(encf, &orgf, st, delta::pick_buf(g), &g, true);
    CHECK(rc == BPAK_OK, "streaming decode: %d", rc);
    CHECK(st.out == stream::payload(inf), "streaming decode: %s", diff_desc(st.out, stream::payload(inf)).c_str());
    order("streaming decode");
    c.label(w.has_tree ? "with tree" : "without tree");
    if (w.has_tree)
        c.nontrivial();
}

// ---------------------------------------------------------------- missing functions
static void missing(Case &c)
{
    Gen &g = c.g;
    start(g);
    Arc m = base_arc(c, g);
    if (m.parts.empty() || m.find(ref::id("fs")) >= 0)
        m = Arc();
    Bytes pd = g.content(1 + (size_t)g.edge_size(3000));
    m.add(ref::id("keys"), pd, 0);
    m.sig = sig_for(pd, Bytes(), 64);
    m.update_hash();
    std::string file = c.path("arc"), key = c.path("key"), in = c.path("in"), prv = c.path("prv");
    Bytes kb{'P', 'U', 'B', 1, 2, 3};
    write_file(key, kb);
    kb[1] = 'R', kb[2] = 'V';
    write_file(prv, kb);
    write_file(in, g.content((size_t)g.range(1, 3000)));
    Bytes f = m.build();
    write_file(file, f);
    unsigned what = (unsigned)g.below(9);
    bpak_hash_setup(what == 0 ? nullptr : t_init, what == 1 ? nullptr : t_update, what == 2 ? nullptr : t_final, what == 3 ? nullptr : t_free);
    bpak_crypto_setup(what == 4 ? nullptr : s_verify, what == 5 ? nullptr : s_sign, what == 6 ? nullptr : s_pub, what == 7 ? nullptr : s_priv, what == 8 ? nullptr : s_parse);
    static const char *names[] = {"hash init", "hash update", "hash final", "hash free", "verify", "sign", "load public key", "load private key", "parse public key"};
    c.log("without the function for: %s\n", names[what]);
    c.label(names[what]);
    Pkg p;
    CHECK(p.open_file(file, "rb+") == BPAK_OK, "cannot open the archive");
    bool hash = what <= 2;
    auto need = [&](bool missing, int rc, const char *op) {
        if (missing)
            CHECK(rc != BPAK_OK, "%s reports success", op);
        else
            CHECK(rc == BPAK_OK, "%s does not need it, but: %d", op, rc);
    };
    uint8_t h[64];
    size_t hs = sizeof h;
    bpak_header hd;
    memcpy(&hd, f.data(), 4096);
    bool plain = true;
    for (auto &q : m.parts)
        plain = plain && !(q.flags & 2);
    for (int k = 0; k < 3; k++) {
        switch (g.below(10)) {
        case 0: need(hash, bpak_pkg_part_sha256(p.p, h, 32, ref::id("keys")), "the hash of a part"); break;
        case 1: need(hash, bpak_verify_compute_header_hash(&hd, h, &hs), "the header hash"); break;
        case 2: need(hash, bpak_verify_compute_payload_hash(&hd, r_file, 4096, &f, h, &hs), "the payload hash"); break;
        case 3:
            if (plain && tree_state(f) == 1)
                need(hash, bpak_verify_payload(&hd, r_file, 4096, &f), "payload verification");
            break;
        case 4: {
            Bytes k = kb;
            bpak_key *kk = nullptr;
            mk(k, &kk);
            int rc = bpak_pkg_verify(p.p, kk);
            bpak_free(kk);
            CHECK(rc != BPAK_OK, "verification of a wrong signature reports success");
            break;
        }
        case 5: {
            bpak_key *kk = nullptr;
            int rc = bpak_crypto_load_public_key(key.c_str(), &kk);
            need(what == 6, rc, "loading a public key");
            if (rc == BPAK_OK)
                bpak_free(kk);
            break;
        }
        case 6: {
            bpak_key *kk = nullptr;
            int rc = bpak_crypto_load_private_key(prv.c_str(), &kk);
            need(what == 7, rc, "loading a private key");
            if (rc == BPAK_OK)
                bpak_free(kk);
            break;
        }
        case 7: {
            bpak_key *kk = nullptr;
            int rc = bpak_crypto_parse_public_key(kb.data(), kb.size(), &kk);
            need(what == 8, rc, "parsing a public key");
            if (rc == BPAK_OK)
                bpak_free(kk);
            break;
        }
        case 8: {
            bpak_merkle_context *x = (bpak_merkle_context *)calloc(1, sizeof *x);
            bpak_merkle_hash_t salt = {1}, root;
            Bytes d(4096, 7), out(8192);
            int rc = bpak_merkle_init(x, 4096, salt, 32, [](off_t o, uint8_t *b, size_t n, void *u) -> ssize_t {
                memcpy((uint8_t *)u + o, b, n);
                return (ssize_t)n; }, [](off_t o, uint8_t *b, size_t n, void *u) -> ssize_t {
                memcpy(b, (uint8_t *)u + o, n);
                return (ssize_t)n; }, 0, true, out.data());
            if (!rc) {
                rc = bpak_merkle_write_chunk(x, d.data(), d.size());
                int fr = bpak_merkle_finish(x, root);
                rc = rc ? rc : fr;
            }
            free(x);
            need(hash, rc, "a hash tree");
            break;
        }
        default: {
            Pkg q;
            CHECK(q.open_file(file, "rb+") == BPAK_OK, "cannot open the archive");
            unsigned op = (unsigned)g.below(4);
            static const char *on[] = {"adding a file", "adding a key", "signing", "deleting a part"};
            int rc = op == 0 ? bpak_pkg_add_file(q.p, in.c_str(), "fs2", 0) : op == 1 ? bpak_pkg_add_key(q.p, key.c_str(), "fs2", 0) : op == 2 ? bpak_pkg_sign(q.p, prv.c_str())
                                                                                                                              : bpak_pkg_delete_part(q.p, ref::id("keys"), true);
            if (op != 3 || what != 1) // nothing to hash may be left
                need(hash || (op == 1 && what == 6) || (op == 2 && (what == 5 || what == 7)), rc, on[op]);
            int cr = q.close();
            if (rc != BPAK_OK) {
                CHECK(cr == BPAK_OK, "close: %d", cr);
                CHECK(op == 3 || slurp(file) == f, "%s was refused, but the file has changed: %s", on[op], cmp(slurp(file), f).c_str());
            } else
                write_file(file, f);
            k = 3; // the first handle is stale now
        }
        }
    }
    CHECK(h_bad.empty(), "hash functions: %s", h_bad.c_str());
    if (what != 3)
        CHECK(h_live.empty(), "%zu hash contexts were not released", h_live.size());
    p.close();
    c.nontrivial();
}
static std::vector<Prop> props = {
    {"C37", "archive histories", histories, 25000, 300000,
     "histories (add, add with tree, add key, sign, verify, delete, part hash, update hash, payload verification) with hash and signature functions of the caller whose results differ from the built-in ones; archive, digests, signatures and verdicts must be "
     "those of the installed functions, which check the order of their calls; non-trivial: at least one hash was computed", 60},
    {"C37", "transport", transport, 5000, 60000, "encoding, decoding by file and by stream of archive pairs with the caller's hash functions; non-trivial: a hash tree was regenerated", 60},
    {"C37", "missing functions", missing, 20000, 200000, "operations without one of the functions: what needs it is refused and changes nothing, everything else works; non-trivial: every case", 60},
};
PBT_MAIN(props)
