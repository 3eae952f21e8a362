// C20, C21: key files, key parsing, keystores.   PBT_LIB(crypto)
#include "ossl.hh"
#include <bpak/bpak.h>
#include <bpak/crypto.h>
#include <bpak/keystore.h>
#include <openssl/bn.h>
#include <openssl/core_names.h>
#include <openssl/ec.h>
#include <openssl/param_build.h>
#include <openssl/pkcs12.h>
#include <unistd.h>
using namespace pbt;
using namespace model;

static const char *KEYS[] = {"p256a", "p256b", "p384a", "p384b", "p521a", "p521b", "rsaa", "rsab"};
static const char *BADK[] = {"bad_k256", "bad_rsa2048", "bad_rsa3072", "bad_p224", "bad_bp256", "bad_bp384", "bad_ed"};

struct KeyP {
    EVP_PKEY *k = nullptr;
    ~KeyP() { EVP_PKEY_free(k); }
    KeyP() = default;
    KeyP(const KeyP &) = delete;
    KeyP &operator=(const KeyP &) = delete;
};
// kind 0..2 EC, 3 RSA
static int pub_kind(int k) { return k == 0 ? BPAK_KEY_PUB_PRIME256v1 : k == 1 ? BPAK_KEY_PUB_SECP384r1 : k == 2 ? BPAK_KEY_PUB_SECP521r1 : BPAK_KEY_PUB_RSA4096; }
static int pri_kind(int k) { return k == 0 ? BPAK_KEY_PRI_PRIME256v1 : k == 1 ? BPAK_KEY_PRI_SECP384r1 : k == 2 ? BPAK_KEY_PRI_SECP521r1 : BPAK_KEY_PRI_RSA4096; }
static const char *KN[] = {"P-256", "P-384", "P-521", "RSA 4096"};
static int kind_of_pkey(EVP_PKEY *k) // -1 when not supported
{
    if (EVP_PKEY_base_id(k) == EVP_PKEY_RSA)
        return EVP_PKEY_bits(k) == 4096 ? 3 : -1;
    if (EVP_PKEY_base_id(k) != EVP_PKEY_EC)
        return -1;
    char g[64] = "";
    size_t n = 0;
    EVP_PKEY_get_group_name(k, g, sizeof g, &n);
    std::string s = g;
    return s == "prime256v1" ? 0 : s == "secp384r1" ? 1 : s == "secp521r1" ? 2 : -1;
}
static EVP_PKEY *ec_from_scalar(int kind, const Bytes &d)
{
    static const int NID[] = {NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1};
    static const char *GN[] = {"prime256v1", "secp384r1", "secp521r1"};
    EC_GROUP *g = EC_GROUP_new_by_curve_name(NID[kind]);
    const BIGNUM *n = EC_GROUP_get0_order(g);
    BN_CTX *bc = BN_CTX_new();
    BIGNUM *x = BN_bin2bn(d.data(), (int)d.size(), nullptr), *n1 = BN_dup(n);
    BN_sub_word(n1, 1);
    BN_mod(x, x, n1, bc);
    BN_add_word(x, 1);
    EC_POINT *p = EC_POINT_new(g);
    EC_POINT_mul(g, p, x, nullptr, nullptr, bc);
    Bytes pt(200);
    size_t pl = EC_POINT_point2oct(g, p, POINT_CONVERSION_UNCOMPRESSED, pt.data(), pt.size(), bc);
    OSSL_PARAM_BLD *b = OSSL_PARAM_BLD_new();
    OSSL_PARAM_BLD_push_utf8_string(b, OSSL_PKEY_PARAM_GROUP_NAME, GN[kind], 0);
    OSSL_PARAM_BLD_push_BN(b, OSSL_PKEY_PARAM_PRIV_KEY, x);
    OSSL_PARAM_BLD_push_octet_string(b, OSSL_PKEY_PARAM_PUB_KEY, pt.data(), pl);
    OSSL_PARAM *pa = OSSL_PARAM_BLD_to_param(b);
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_from_name(nullptr, "EC", nullptr);
    EVP_PKEY *k = nullptr;
    if (EVP_PKEY_fromdata_init(c) != 1 || EVP_PKEY_fromdata(c, &k, EVP_PKEY_KEYPAIR, pa) != 1)
        k = nullptr;
    EVP_PKEY_CTX_free(c);
    OSSL_PARAM_free(pa);
    OSSL_PARAM_BLD_free(b);
    EC_POINT_free(p);
    BN_free(x);
    BN_free(n1);
    BN_CTX_free(bc);
    EC_GROUP_free(g);
    if (!k)
        FAILF("harness: EC key from scalar");
    return k;
}
static Bytes bio_bytes(BIO *b)
{
    char *p;
    long n = BIO_get_mem_data(b, &p);
    Bytes r(p, p + n);
    BIO_free(b);
    return r;
}
static Bytes spki(EVP_PKEY *k)
{
    unsigned char *p = nullptr;
    int n = i2d_PUBKEY(k, &p);
    if (n <= 0)
        FAILF("harness: i2d_PUBKEY");
    Bytes r(p, p + n);
    OPENSSL_free(p);
    return r;
}
static Bytes trad(EVP_PKEY *k)
{
    unsigned char *p = nullptr;
    int n = i2d_PrivateKey(k, &p);
    if (n <= 0)
        FAILF("harness: i2d_PrivateKey");
    Bytes r(p, p + n);
    OPENSSL_free(p);
    return r;
}
static Bytes pkcs8(EVP_PKEY *k)
{
    PKCS8_PRIV_KEY_INFO *i = EVP_PKEY2PKCS8(k);
    unsigned char *p = nullptr;
    int n = i2d_PKCS8_PRIV_KEY_INFO(i, &p);
    Bytes r(p, p + n);
    OPENSSL_free(p);
    PKCS8_PRIV_KEY_INFO_free(i);
    return r;
}
// PEM armour, with a chosen line width and line end
static Bytes pem(const Bytes &der, const std::string &type, size_t width = 64, const char *nl = "\n")
{
    std::string b;
    b.resize(4 * ((der.size() + 2) / 3) + 1);
    int n = EVP_EncodeBlock((unsigned char *)&b[0], der.data(), (int)der.size());
    b.resize((size_t)n);
    std::string o = "-----BEGIN " + type + "-----" + nl;
    for (size_t i = 0; i < b.size(); i += width)
        o += b.substr(i, width) + nl;
    o += "-----END " + type + "-----" + nl;
    return Bytes(o.begin(), o.end());
}
struct Pick {
    KeyP own;
    EVP_PKEY *k = nullptr;
    int kind = 0;
};
static void pick_key(Case &c, Pick &p)
{
    Gen &g = c.g;
    if (g.chance(75)) {
        p.kind = (int)g.below(3);
        static const size_t L[] = {32, 48, 66};
        Bytes d;
        switch (g.weighted({6, 2, 2})) {
        case 0: { // anywhere
            Rng r{g.draw(UINT64_MAX)};
            for (size_t i = 0; i < L[p.kind] + 8; i++)
                d.push_back((uint8_t)r.next());
            break;
        }
        case 1: // few significant bytes
            d = g.literal(4);
            break;
        default: { // leading zero bytes
            Rng r{g.draw(UINT64_MAX)};
            for (size_t i = 0, n = L[p.kind] - (size_t)g.range(1, 3); i < n; i++)
                d.push_back((uint8_t)r.next());
            break;
        }
        }
        p.own.k = p.k = ec_from_scalar(p.kind, d);
        c.log("%s key from scalar %s\n", KN[p.kind], hexs(d.data(), d.size()).c_str());
    } else {
        const char *n = KEYS[g.below(8)];
        p.k = ossl::load(n, true);
        p.kind = kind_of_pkey(p.k);
        c.log("%s key %s\n", KN[p.kind], n);
    }
}
// the loaded key, or nullptr; a refused key must leave the output alone
static bpak_key *const SENT = (bpak_key *)(uintptr_t)0x10;
struct Loaded {
    bpak_key *k = nullptr;
    int rc = 0;
    ~Loaded() { free(k); }
    Loaded() = default;
    Loaded(const Loaded &) = delete;
    Loaded &operator=(const Loaded &) = delete;
};
static void settle(Loaded &l, bpak_key *out, const char *what, int verdict = 0)
{
    if (l.rc == BPAK_OK) {
        CHECK(out != SENT && out != nullptr, "%s reported success without a key", what);
        l.k = out;
    } else {
        CHECK(l.rc < 0 || l.rc == verdict, "%s returned %d", what, l.rc);
        CHECK(out == SENT || out == nullptr, "%s failed (%d) but handed out a key", what, l.rc);
    }
}
static void load_pub(Case &c, const Bytes &f, Loaded &l)
{
    std::string p = c.path("k.pub");
    write_file(p, f);
    bpak_key *o = SENT;
    l.rc = bpak_crypto_load_public_key(p.c_str(), &o);
    settle(l, o, "load_public_key");
    CHECK(slurp(p) == f, "loading a key changed the file");
}
static void load_pri(Case &c, const Bytes &f, Loaded &l)
{
    std::string p = c.path("k.pri");
    write_file(p, f);
    bpak_key *o = SENT;
    l.rc = bpak_crypto_load_private_key(p.c_str(), &o);
    settle(l, o, "load_private_key");
    CHECK(slurp(p) == f, "loading a key changed the file");
}
static void parse_mem(const Bytes &f, Loaded &l)
{
    uint8_t *b = (uint8_t *)malloc(f.size() ? f.size() : 1); // exact size, so reads beyond it are seen
    memcpy(b, f.data(), f.size());
    bpak_key *o = SENT;
    l.rc = bpak_crypto_parse_public_key(b, f.size(), &o);
    bool same = memcmp(b, f.data(), f.size()) == 0;
    memset(b, 0xee, f.size());
    free(b);
    settle(l, o, "parse_public_key");
    CHECK(same, "parsing a key changed the buffer");
}
static void is_key(const bpak_key *k, const Bytes &want, int kind, const char *how)
{
    CHECK((int)k->kind == kind, "%s: kind %d instead of %d", how, k->kind, kind);
    CHECK(k->size == want.size(), "%s: %u key bytes instead of %zu", how, k->size, want.size());
    CHECK(memcmp(k->data, want.data(), want.size()) == 0, "%s: key bytes differ: %s", how, diff_desc(Bytes(k->data, k->data + k->size), want).c_str());
}
static Bytes wrap(Case &c, const Bytes &p)
{ // text around the armour
    Gen &g = c.g;
    Bytes o;
    if (g.chance(15)) {
        std::string s = "Bag Attributes\n    friendlyName: some key\n\n";
        o.insert(o.end(), s.begin(), s.end());
    }
    o.insert(o.end(), p.begin(), p.end());
    if (g.chance(15)) {
        std::string s = "\n# end of key\n";
        o.insert(o.end(), s.begin(), s.end());
    }
    return o;
}
static void encodings(Case &c)
{
    Gen &g = c.g;
    Pick p;
    pick_key(c, p);
    Bytes pub = spki(p.k), pri = trad(p.k);
    const char *nl = g.chance(25) ? "\r\n" : "\n";
    // public key
    Bytes rsa1;
    if (p.kind == 3) {
        unsigned char *q = nullptr;
        int n = i2d_PublicKey(p.k, &q);
        rsa1.assign(q, q + n);
        OPENSSL_free(q);
    }
    std::vector<std::pair<std::string, Bytes>> enc = {{"SPKI DER", pub}, {"SPKI PEM", wrap(c, pem(pub, "PUBLIC KEY", 64, nl))}};
    if (p.kind == 3) {
        enc.push_back({"PKCS1 DER", rsa1});
        enc.push_back({"PKCS1 PEM", wrap(c, pem(rsa1, "RSA PUBLIC KEY", 64, nl))});
    }
    for (auto &e : enc) {
        Loaded l;
        load_pub(c, e.second, l);
        CHECK(l.rc == BPAK_OK, "public key in %s refused (%d)", e.first.c_str(), l.rc);
        is_key(l.k, pub, pub_kind(p.kind), ("public key from " + e.first).c_str());
        if (e.first.find("DER") != std::string::npos) {
            Loaded m;
            parse_mem(e.second, m);
            CHECK(m.rc == BPAK_OK, "public key in %s refused from memory (%d)", e.first.c_str(), m.rc);
            is_key(m.k, pub, pub_kind(p.kind), ("parsed public key from " + e.first).c_str());
        } else {
            Bytes z = e.second;
            z.push_back(0);
            Loaded m;
            parse_mem(z, m);
            CHECK(m.rc == BPAK_OK, "public key in %s refused from memory (%d)", e.first.c_str(), m.rc);
            is_key(m.k, pub, pub_kind(p.kind), ("parsed public key from " + e.first).c_str());
        }
    }
    // private key
    Bytes p8 = pkcs8(p.k);
    std::vector<std::pair<std::string, Bytes>> pe = {{"traditional DER", pri},
                                                     {"traditional PEM", wrap(c, pem(pri, p.kind == 3 ? "RSA PRIVATE KEY" : "EC PRIVATE KEY", 64, nl))},
                                                     {"PKCS8 DER", p8},
                                                     {"PKCS8 PEM", wrap(c, pem(p8, "PRIVATE KEY", 64, nl))}};
    Bytes digest;
    {
        Rng r{g.draw(UINT64_MAX)};
        size_t n = (size_t)g.range(1, 3);
        for (size_t i = 0; i < 16 + 16 * n; i++)
            digest.push_back((uint8_t)r.next());
    }
    int hk = digest.size() == 32 ? BPAK_HASH_SHA256 : digest.size() == 48 ? BPAK_HASH_SHA384 : BPAK_HASH_SHA512;
    size_t pick = (size_t)g.below(pe.size());
    for (size_t i = 0; i < pe.size(); i++) {
        auto &e = pe[i];
        if (p.kind == 3 && i != pick && !c.thorough)
            continue; // RSA private keys are slow to load
        Loaded l;
        load_pri(c, e.second, l);
        CHECK(l.rc == BPAK_OK, "private key in %s refused (%d)", e.first.c_str(), l.rc);
        is_key(l.k, pri, pri_kind(p.kind), ("private key from " + e.first).c_str());
        Loaded np; // a private key is no public key
        load_pub(c, e.second, np);
        CHECK(np.rc != BPAK_OK, "private key in %s loaded as a public key", e.first.c_str());
        if (i != pick)
            continue;
        uint8_t sig[1024];
        size_t n = sizeof sig;
        int rc = bpak_crypto_sign(digest.data(), digest.size(), (enum bpak_hash_kind)hk, l.k, sig, &n);
        CHECK(rc == BPAK_OK && n <= sizeof sig, "signing with a loaded key failed (%d)", rc);
        Loaded v;
        parse_mem(pub, v);
        bool ok = false;
        rc = bpak_crypto_verify(sig, n, digest.data(), digest.size(), (enum bpak_hash_kind)hk, v.k, &ok);
        CHECK(rc == BPAK_OK && ok, "the public key does not verify a signature of its private key (%d)", rc);
        EVP_PKEY_CTX *x = EVP_PKEY_CTX_new(p.k, nullptr);
        ok = EVP_PKEY_verify_init(x) == 1 && EVP_PKEY_CTX_set_signature_md(x, ossl::md((unsigned)(hk == BPAK_HASH_SHA256 ? 1 : hk == BPAK_HASH_SHA384 ? 2 : 3))) == 1 &&
             EVP_PKEY_verify(x, sig, n, digest.data(), digest.size()) == 1;
        EVP_PKEY_CTX_free(x);
        CHECK(ok, "the signature does not belong to the key");
        Pick q;
        pick_key(c, q);
        Bytes opub = spki(q.k);
        if (opub != pub) {
            Loaded w;
            parse_mem(opub, w);
            CHECK(w.rc == BPAK_OK, "key refused from memory (%d)", w.rc);
            ok = false;
            rc = bpak_crypto_verify(sig, n, digest.data(), digest.size(), (enum bpak_hash_kind)hk, w.k, &ok);
            CHECK(!ok, "another key verified the signature");
        }
    }
    Loaded nk; // and a public key no private one
    load_pri(c, g.flip() ? pub : pem(pub, "PUBLIC KEY"), nk);
    CHECK(nk.rc != BPAK_OK, "public key loaded as a private key");
    c.nontrivial();
    c.label(KN[p.kind]);
}
static std::vector<std::string> &pubs_of(const char *k)
{
    static std::map<std::string, std::vector<std::string>> m;
    auto &v = m[k];
    if (v.empty())
        for (const char *x : {".pub.der", ".pub.pem", ".pub1.der", ".pub1.pem"})
            if (exists(keydir() + k + x))
                v.push_back(keydir() + k + x);
    return v;
}
static std::vector<std::string> &pris_of(const char *k)
{
    static std::map<std::string, std::vector<std::string>> m;
    auto &v = m[k];
    if (v.empty())
        for (const char *x : {".key.der", ".key.pem", ".p8.der", ".p8.pem"})
            if (exists(keydir() + k + x))
                v.push_back(keydir() + k + x);
    return v;
}
// keys that are refused, or files that are damaged: refused, or exactly what a second implementation reads out of them
static void refused(Case &c)
{
    Gen &g = c.g;
    Bytes f;
    bool priv = g.chance(45), must_fail = false;
    std::string what;
    size_t kind = g.weighted({3, 5, 1, 2, 2});
    if (kind == 0) {
        const char *k = BADK[g.below(7)];
        auto &v = priv ? pris_of(k) : pubs_of(k);
        f = slurp(v[g.below(v.size())]);
        must_fail = true;
        what = strf("unsupported key %s", k);
    } else {
        const char *k = KEYS[g.below(8)];
        auto &v = priv ? pris_of(k) : pubs_of(k);
        std::string n = v[g.below(v.size())];
        f = slurp(n);
        bool der = n.substr(n.size() - 3) == "der";
        if (kind == 1) {
            for (uint64_t i = g.range(1, 3); i; i--) {
                size_t at = (size_t)(g.flip() ? g.below(std::min<size_t>(f.size(), 64)) : g.below(f.size()));
                f[at] ^= (uint8_t)(1u << g.below(8));
            }
            what = "flipped bits in " + n.substr(n.rfind('/') + 1);
        } else if (kind == 2) {
            f = g.content((size_t)g.range(0, 700));
            what = "arbitrary bytes";
        } else if (kind == 3) {
            f.resize((size_t)g.below(f.size()));
            must_fail = der;
            what = "cut " + n.substr(n.rfind('/') + 1);
        } else {
            size_t at = (size_t)g.below(f.size() + 1);
            Bytes ins = g.content((size_t)g.range(1, 40));
            if (g.flip())
                f.insert(f.begin() + (long)at, ins.begin(), ins.end());
            else
                f.erase(f.begin() + (long)at, f.begin() + (long)std::min(f.size(), at + ins.size()));
            what = "spliced " + n.substr(n.rfind('/') + 1);
        }
    }
    c.log("%s key file, %zu bytes: %s\n", priv ? "private" : "public", f.size(), what.c_str());
    c.label(what.substr(0, what.find(' ')));
    Loaded l, m;
    if (priv)
        load_pri(c, f, l);
    else {
        load_pub(c, f, l);
        parse_mem(f, m);
    }
    if (must_fail)
        CHECK(l.rc != BPAK_OK && (priv || m.rc != BPAK_OK), "accepted: %s", what.c_str());
    c.nontrivial();
    for (Loaded *x : {&l, &m}) {
        if (!x->k)
            continue;
        c.label("accepted");
        const unsigned char *q = x->k->data;
        EVP_PKEY *k = priv ? d2i_AutoPrivateKey(nullptr, &q, x->k->size) : d2i_PUBKEY(nullptr, &q, x->k->size);
        // a damaged private key may be inconsistent: the reference then refuses it, which is no defect of the loader
        if (!k) {
            CHECK(priv, "the accepted key's bytes are no public key");
            continue;
        }
        CHECK(q == x->k->data + x->k->size, "the accepted key has %td bytes too many", x->k->data + x->k->size - q);
        int kd = kind_of_pkey(k);
        EVP_PKEY_free(k);
        CHECK(kd >= 0 && (int)x->k->kind == (priv ? pri_kind(kd) : pub_kind(kd)), "accepted key of kind %d is said to be %d", kd, x->k->kind);
    }
}
static void missing(Case &c)
{
    bpak_key *o = SENT;
    std::string p = c.g.pick<std::string>({c.path("nosuch"), c.path(""), "", keydir() + "enc_p256a.key.pem"});
    int rc = bpak_crypto_load_public_key(p.c_str(), &o);
    CHECK(rc < 0 && (o == SENT || !o), "public key loaded from '%s' (%d)", p.c_str(), rc);
    rc = bpak_crypto_load_private_key(p.c_str(), &o);
    CHECK(rc < 0 && (o == SENT || !o), "private key loaded from '%s' (%d)", p.c_str(), rc);
    c.nontrivial();
}

// ------------------------------------------------------------------------------------------ keystores
struct Cb {
    int calls = 0, rc = 0;
    Bytes seen;
    void *user = nullptr;
};
static Cb *g_cb;
static int on_header(bpak_header *h, void *user)
{
    g_cb->calls++;
    g_cb->user = user;
    g_cb->seen.assign((uint8_t *)h, (uint8_t *)h + sizeof *h);
    return g_cb->rc;
}
static void keystore(Case &c)
{
    Gen &g = c.g;
    Arc a;
    uint32_t prov = (uint32_t)(g.flip() ? ref::id("internal") : g.draw(1ull << 32));
    Bytes pv(4);
    ref::put(pv, 0, 4, prov);
    size_t n = (size_t)g.range(0, g.chance(10) ? 31 : 5);
    struct E {
        uint32_t id;
        Bytes der;
        int kind;
        bool ok;
    };
    std::vector<E> es;
    for (size_t i = 0; i < n; i++) {
        E e;
        do
            e.id = g.flip() ? ref::id(strf("key%zu", i)) : 1 + (uint32_t)g.below(1ull << 32 >> (g.below(28)));
        while (a.find(e.id) >= 0 || !e.id);
        e.ok = true;
        e.kind = 0;
        switch (g.weighted({10, 3, 2, 2})) {
        case 0: {
            const char *k = KEYS[g.below(8)];
            e.der = slurp(keydir() + k + ".pub.der");
            e.kind = pub_kind(kind_of_pkey(ossl::load(k, false)));
            break;
        }
        case 1: {
            Rng r{g.draw(UINT64_MAX)};
            Bytes d;
            for (int q = 0; q < 40; q++)
                d.push_back((uint8_t)r.next());
            int kd = (int)g.below(3);
            KeyP kp;
            kp.k = ec_from_scalar(kd, d);
            e.der = spki(kp.k);
            e.kind = pub_kind(kd);
            break;
        }
        case 2: {
            const char *B[] = {"bad_k256", "bad_rsa2048", "bad_ed", "bad_p224", "bad_bp256"};
            e.der = slurp(keydir() + B[g.below(5)] + ".pub.der");
            e.ok = false;
            break;
        }
        default:
            e.der = g.content((size_t)(g.chance(40) ? g.range(500, 9000) : g.range(0, 600)));
            e.ok = false;
        }
        a.add(e.id, e.der, g.chance(20) ? 1 : 0);
        es.push_back(e);
    }
    bool no_prov = g.chance(6), short_prov = !no_prov && g.chance(6), other_ref = !no_prov && !short_prov && g.chance(5);
    if (short_prov)
        pv.resize((size_t)g.below(4));
    else if (g.chance(5))
        pv.resize(4 + (size_t)g.below(20), 0x5a);
    if (g.flip())
        a.add_meta(ID_PACKAGE, 0, Bytes{0x5d, 0xf1, 0x03, 0xef, 0xe7, 0x74, 0x45, 0x0b, 0x95, 0xc5, 0x1f, 0xef, 0x51, 0xce, 0xec, 0x28});
    if (other_ref)
        a.add_meta(ID_KEYSTORE_PROVIDER, 0x77, pv);
    else if (!no_prov)
        a.add_meta(ID_KEYSTORE_PROVIDER, 0, pv);
    if (g.flip())
        a.add_meta(0x4711, 0, g.content((size_t)g.below(60)));
    a.update_hash();
    Bytes f = a.build();
    bool cut = g.chance(5);
    size_t cutat = f.size();
    if (cut) {
        cutat = (size_t)g.below(f.size());
        f.resize(cutat);
    }
    std::string path = c.path("ks.bpak");
    write_file(path, f);
    uint32_t want_prov = g.chance(85) ? prov : g.flip() ? prov + 1 : prov ^ (1u << g.below(32));
    size_t at = es.empty() ? 0 : (size_t)g.below(es.size());
    uint32_t want_key = !es.empty() && g.chance(85) ? es[at].id : (uint32_t)g.draw(1ull << 32);
    at = es.size();
    size_t off = 4096;
    bool there = false;
    for (size_t i = 0; i < es.size(); i++) {
        if (es[i].id == want_key) {
            at = i;
            there = off + es[i].der.size() <= f.size();
        }
        off += a.parts[i].stored.size();
    }
    Cb cb;
    g_cb = &cb;
    bool use_cb = g.flip();
    if (use_cb && g.chance(25))
        cb.rc = g.chance(70) ? -(int)g.range(1, 60) : (int)g.range(1, 60);
    int token;
    bpak_key *o = SENT;
    c.log("keystore 0x%x with %zu keys%s, asked for 0x%x in 0x%x%s\n", prov, es.size(), cut ? ", cut" : "", want_key, want_prov,
          use_cb ? strf(", header check returns %d", cb.rc).c_str() : "");
    Loaded l;
    l.rc = bpak_keystore_load_key_from_file(path.c_str(), want_prov, want_key, use_cb ? on_header : nullptr, &token, &o);
    settle(l, o, "keystore_load_key_from_file", use_cb ? cb.rc : 0);
    CHECK(slurp(path) == f, "loading a key changed the keystore");
    bool header_ok = f.size() >= 4096;
    if (use_cb) {
        CHECK(cb.calls == (header_ok ? 1 : 0), "header check called %d times", cb.calls);
        if (header_ok) {
            CHECK(cb.user == &token, "header check got another context pointer");
            CHECK(std::equal(cb.seen.begin(), cb.seen.end(), f.begin()), "header check got another header");
        }
    }
    const char *why = !header_ok                        ? "not an archive"
                      : use_cb && cb.rc                 ? "header check failed"
                      : no_prov || other_ref            ? "no provider id"
                      : short_prov                      ? "short provider id"
                      : want_prov != prov               ? "other keystore"
                      : at == es.size()                 ? "no such key"
                      : !there                          ? "key data missing"
                      : !es[at].ok                      ? "not a supported key"
                                                        : nullptr;
    if (!why) {
        CHECK(l.rc == BPAK_OK, "key refused (%d)", l.rc);
        CHECK(l.k->id == want_key, "key has id 0x%x", l.k->id);
        is_key(l.k, es[at].der, es[at].kind, "loaded key");
        c.label("loaded");
    } else {
        CHECK(l.rc != BPAK_OK, "key loaded although: %s", why);
        if (header_ok && use_cb && cb.rc)
            CHECK(l.rc == cb.rc, "header check failed with %d, but %d was reported", cb.rc, l.rc);
        else if (!strcmp(why, "other keystore"))
            CHECK(l.rc == -BPAK_KEYSTORE_ID_MISMATCH, "wrong keystore id: %d", l.rc);
        c.label(why);
    }
    c.nontrivial();
}
static void builtin(Case &c)
{
    Gen &g = c.g;
    size_t n = (size_t)(g.chance(10) ? g.range(0, 255) : g.range(0, 8));
    bpak_keystore *ks = (bpak_keystore *)calloc(1, sizeof(bpak_keystore) + n * sizeof(bpak_key *));
    std::vector<bpak_key> keys(n);
    uint32_t span = g.flip() ? 4 : 0xffffffff;
    for (size_t i = 0; i < n; i++) {
        memset(&keys[i], 0, sizeof keys[i]);
        keys[i].id = (uint32_t)g.below((uint64_t)span + 1);
        ks->keys[i] = &keys[i];
    }
    ks->no_of_keys = (uint8_t)n;
    ks->verified = g.chance(75);
    ks->id = (uint32_t)g.draw(100);
    for (int q = 0; q < 8; q++) {
        uint32_t id = n && g.flip() ? keys[g.below(n)].id : (uint32_t)g.below((uint64_t)span + 1);
        bpak_key *o = SENT, *want = nullptr;
        for (size_t i = 0; i < n && !want; i++)
            if (keys[i].id == id)
                want = &keys[i];
        int rc = bpak_keystore_get(ks, id, &o);
        if (ks->verified && want)
            CHECK(rc == BPAK_OK && o == want, "look-up of 0x%x: %d, another key", id, rc);
        else
            CHECK(rc < 0 && (o == nullptr || o == SENT), "look-up of 0x%x in a%s keystore without it: %d", id, ks->verified ? "" : "n unverified", rc);
    }
    free(ks);
    if (n)
        c.nontrivial();
}
static const std::vector<Prop> props = {
    {"C20", "load", keystore, 120000, 1000000,
     "keystore archives (0-31 keys of all kinds, unsupported and damaged parts, missing or short identity, cut files) x requested identity, key and header check; "
     "every case is non-trivial"},
    {"C20", "builtin", builtin, 80000, 1000000, "look-ups in built-in keystores; non-trivial: the keystore has keys"},
    {"C21", "encodings", encodings, 6000, 60000,
     "fresh EC keys (incl. tiny and zero-padded scalars) and RSA keys in every PEM/DER encoding, loaded, parsed, signed and verified with; every case is non-trivial", 60},
    {"C21", "refused", refused, 60000, 1000000,
     "foreign keys, damaged, cut, spliced and arbitrary key files: refused, or a key another implementation reads the same; every case is non-trivial", 60},
    {"C21", "missing", missing, 100, 400, "files that do not exist or are encrypted"},
};
PBT_MAIN(props)
