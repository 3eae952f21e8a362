// C08 signing verifies, C09 tampering is detected, C10 external signatures. PBT_LIB(crypto)
#include "arcgen.hh"
#include "ossl.hh"
extern "C" {
#include <bpak/bpak.h>
#include <bpak/pkg.h>
#include <bpak/verify.h>
#include <bpak/id.h>
#include <bpak/crypto.h>
}
using namespace pbt;
using namespace model;

static const char *KEYS[] = {"p256a", "p256b", "p384a", "p384b", "p521a", "p521b", "rsaa", "rsab"};
static const char *PRIV_EXT[] = {".key.pem", ".key.der", ".p8.pem", ".p8.der"};
static const char *PUB_EXT[] = {".pub.pem", ".pub.der"};

struct Pkg {
    bpak_package *p;
    bool open = false;
    Pkg() { p = (bpak_package *)calloc(1, sizeof *p); }
    ~Pkg()
    {
        if (open)
            bpak_pkg_close(p);
        free(p);
    }
    int open_file(const std::string &f, const char *mode)
    {
        if (open)
            bpak_pkg_close(p);
        int rc = bpak_pkg_open(p, f.c_str(), mode);
        open = rc == BPAK_OK;
        return rc;
    }
    void close()
    {
        if (open)
            bpak_pkg_close(p);
        open = false;
    }
};
struct Key {
    bpak_key *k = nullptr;
    Key(const std::string &file)
    {
        int rc = bpak_crypto_load_public_key(file.c_str(), &k);
        CHECK(rc == BPAK_OK && k, "cannot load the public key %s: %s", file.c_str(), bpak_error_string(rc));
    }
    ~Key() { free(k); }
};
static unsigned pick_key(Gen &g) { return (unsigned)g.weighted({10, 4, 6, 3, 5, 2, 2, 1}); }
static std::string pub(Gen &g, unsigned k) { return keydir() + KEYS[k] + PUB_EXT[g.below(2)]; }
static std::string priv(Gen &g, unsigned k) { return keydir() + KEYS[k] + PRIV_EXT[g.below(4)]; }

static arcgen::Opt opts(Case &c)
{
    arcgen::Opt o;
    if (c.thorough)
        o.max_size = 40000, o.max_blocks = 12;
    o.max_parts = 4;
    return o;
}
static Bytes sig_of(const Bytes &f) { return Bytes(f.begin() + ref::H_SIG, f.begin() + ref::H_SIG + (long)ref::le(f, ref::H_SIGSZ, 2)); }
// the archive must verify with this key, and the signature must be a standard one
static void expect_good(Pkg &p, const Bytes &f, Gen &g, unsigned k, const char *when)
{
    unsigned sz = (unsigned)ref::le(f, ref::H_SIGSZ, 2);
    CHECK(sz > 0 && sz <= 512, "%s: stored signature size is %u", when, sz);
    Bytes sig(f.begin() + ref::H_SIG, f.begin() + ref::H_SIG + sz);
    for (size_t i = ref::H_SIG + sz; i < ref::H_SIGSZ; i++)
        CHECK(f[i] == 0, "%s: signature area is not zero filled after the signature", when);
    CHECK(ossl::verify(KEYS[k], f[ref::H_HASHKIND], ref::header_digest(f), sig), "%s: the stored signature (%u bytes, %s, hash kind %u) is not accepted by an independent implementation",
          when, sz, KEYS[k], f[ref::H_HASHKIND]);
    Key key(pub(g, k));
    int rc = bpak_pkg_verify(p.p, key.k);
    CHECK(rc == BPAK_OK, "%s: verification with the matching key %s fails: %s", when, KEYS[k], bpak_error_string(rc));
}
static bool verifies(Pkg &p, const std::string &pubfile)
{
    Key key(pubfile);
    return bpak_pkg_verify(p.p, key.k) == BPAK_OK;
}

static void c08(Case &c)
{
    Gen &g = c.g;
    Arc a = arcgen::make(g, opts(c));
    arcgen::describe(c, a);
    Bytes good_ph = a.phash;
    bool stale = g.chance(20);
    if (stale)
        a.phash = g.content(64), std::fill(a.phash.begin() + (long)ref::hash_len(a.hash_kind), a.phash.end(), 0);
    if (g.chance(30))
        a.sig = g.content((size_t)g.range(1, 512));
    std::string fn = c.path("a.bpak");
    write_file(fn, a.build());
    Pkg p;
    CHECK(p.open_file(fn, "rb+") == BPAK_OK, "opening failed");
    size_t rounds = (size_t)g.range(1, 3);
    unsigned last = 99;
    for (size_t r = 0; r < rounds; r++) {
        unsigned k = pick_key(g);
        std::string kf = priv(g, k);
        c.log("sign with %s\n", kf.substr(kf.rfind('/') + 1).c_str());
        c.label(strf("sign %s hash %u", std::string(KEYS[k]).substr(0, 4).c_str(), a.hash_kind));
        int rc = bpak_pkg_sign(p.p, kf.c_str());
        CHECK(rc == BPAK_OK, "signing with %s failed: %s", kf.c_str(), bpak_error_string(rc));
        fflush(p.p->fp);
        Bytes f = slurp(fn);
        a.phash = good_ph;
        a.sig.clear();
        Bytes want = a.build();
        Bytes ff = f;
        std::fill(ff.begin() + ref::H_SIG, ff.begin() + 4096, 0);
        CHECK(ff == want, "signing changed something other than payload hash and signature: %s", cmp(ff, want).c_str());
        CHECK(memcmp(&p.p->header, f.data(), 4096) == 0, "header in the file differs from the loaded one after signing");
        expect_good(p, f, g, k, "after signing");
        if (k >= 6) // PKCS#1 v1.5 signatures are unique
            CHECK(sig_of(f) == ossl::sign(KEYS[k], a.hash_kind, ref::header_digest(f)), "RSA signature differs from the reference signature");
        if (g.flip()) {
            p.close();
            Bytes f2 = slurp(fn);
            CHECK(f2 == f, "closing changed the archive");
            CHECK(p.open_file(fn, g.flip() ? "rb" : "rb+") == BPAK_OK, "reopening a signed archive failed");
            expect_good(p, f2, g, k, "after reopening");
            CHECK(p.open_file(fn, "rb+") == BPAK_OK, "reopening a signed archive failed");
        }
        if (last != 99 && last != k)
            CHECK(!verifies(p, pub(g, last)), "the archive still verifies with the previous key");
        last = k;
    }
    if (a.parts.size() >= 2 || rounds >= 2)
        c.nontrivial();
}

// ---------------------------------------------------------------- C09
static void expect_fail(Case &c, Bytes f, const std::string &fn, const std::string &pubf, const std::string &what)
{
    write_file(fn, f);
    Pkg p;
    int rc = p.open_file(fn, "rb");
    if (rc == BPAK_OK) {
        Key k(pubf);
        rc = bpak_pkg_verify(p.p, k.k);
    }
    CHECK(rc != BPAK_OK, "verification succeeds although %s", what.c_str());
    p.close();
    CHECK(slurp(fn) == f, "verification changed the archive");
}
static void c09(Case &c)
{
    Gen &g = c.g;
    arcgen::Opt o = opts(c);
    o.tree_pct = 40;
    Arc a = arcgen::make(g, o);
    arcgen::describe(c, a);
    unsigned k = pick_key(g);
    std::string fn = c.path("a.bpak");
    a.sig = ossl::sign(KEYS[k], a.hash_kind, ref::header_digest(a.header()));
    Bytes f = a.build();
    write_file(fn, f);
    Pkg p;
    CHECK(p.open_file(fn, "rb+") == BPAK_OK, "opening failed");
    CHECK(verifies(p, pub(g, k)), "a correctly signed archive does not verify");
    p.close();
    std::string pf = pub(g, k);
    // who protects what
    struct Rg { uint64_t off, len; bool prot; std::string d; };
    std::vector<Rg> pr, un;
    uint64_t off = 4096;
    for (auto &q : a.parts) {
        bool tree = a.find_meta(ID_ROOT, q.id) >= 0;
        bool istree = false, oneblock = false;
        for (auto &z : a.parts)
            if (ref::tree_id(z.id) == q.id && a.find_meta(ID_ROOT, z.id) >= 0)
                istree = true, oneblock = z.size == 4096;
        Rg r{off, q.stored.size(), !(q.flags & 1) || tree || istree, ""};
        r.d = strf("part %08x (%s%s)", q.id, q.flags & 1 ? "excluded" : "included", tree ? ", has tree" : istree ? ", is tree" : "");
        if (istree && oneblock && (q.flags & 1)) { // only the hash in it takes part in the definition
            Rg pad{off + 32, r.len - 32, false, "padding of a one-block tree"};
            un.push_back(pad);
            r.len = 32;
        }
        if (r.len)
            (r.prot ? pr : un).push_back(r);
        off += q.stored.size();
    }
    size_t reps = c.thorough ? 14 : 7;
    unsigned effective = 0;
    for (size_t i = 0; i < reps; i++) {
        Bytes m = f;
        switch (g.weighted({6, 8, 3, 4, 2, 2, 2, 2, 4})) {
        case 0: { // header bit
            size_t at = (size_t)g.below(ref::H_SIG);
            if (g.chance(40)) // around used areas
                at = (size_t)g.pick<uint64_t>({g.range(0, 40), ref::H_PARTS + g.below(96), ref::H_DATA + g.below(80), ref::H_HASHKIND + g.below(118)});
            unsigned b = (unsigned)g.below(8);
            m[at] ^= (uint8_t)(1u << b);
            c.label("header bit");
            expect_fail(c, m, fn, pf, strf("bit %u of header byte %zu (%s) was flipped", b, at, area(at)));
            break;
        }
        case 1: { // protected payload bit
            if (pr.empty())
                continue;
            const Rg &r = pr[g.below(pr.size())];
            uint64_t at = g.chance(25) ? g.pick<uint64_t>({0, r.len - 1, r.len / 2}) : g.below(r.len);
            unsigned b = (unsigned)g.below(8);
            m[r.off + at] ^= (uint8_t)(1u << b);
            c.label("payload bit, " + r.d.substr(14));
            expect_fail(c, m, fn, pf, strf("bit %u of byte %llu of %s was flipped", b, (unsigned long long)at, r.d.c_str()));
            break;
        }
        case 2: { // unprotected bytes
            std::string what;
            if (un.size() && g.flip()) {
                const Rg &r = un[g.below(un.size())];
                m[r.off + g.below(r.len)] ^= (uint8_t)(1u << g.below(8));
                what = "only unprotected " + r.d + " was changed";
            } else if (g.flip() && a.sig.size() < 512) {
                m[ref::H_SIG + a.sig.size() + g.below(512 - a.sig.size())] ^= (uint8_t)(1u << g.below(8));
                what = "only the unused signature area was changed";
            } else {
                m.resize(m.size() + (size_t)g.range(1, 700), 0x11);
                what = "only bytes after the last part were added";
            }
            write_file(fn, m);
            CHECK(p.open_file(fn, "rb") == BPAK_OK, "opening failed");
            CHECK(verifies(p, pf), "verification fails although %s", what.c_str());
            p.close();
            c.label("unprotected change");
            continue;
        }
        case 3: { // signature
            size_t n = a.sig.size();
            std::string what;
            switch (g.below(6)) {
            case 0: {
                size_t at = (size_t)g.below(n);
                m[ref::H_SIG + at] ^= (uint8_t)(1u << g.below(8));
                what = strf("byte %zu of the signature was changed", at);
                break;
            }
            case 1: {
                size_t cut = g.flip() ? 1 : (size_t)g.range(1, n);
                ref::put(m, ref::H_SIGSZ, 2, n - cut);
                if (g.flip())
                    std::fill(m.begin() + ref::H_SIG + (long)(n - cut), m.begin() + ref::H_SIGSZ, 0);
                what = strf("the signature was shortened by %zu", cut);
                break;
            }
            case 2: {
                if (n >= 512)
                    continue;
                size_t ext = g.flip() ? 1 : (size_t)g.range(1, 512 - n);
                ref::put(m, ref::H_SIGSZ, 2, n + ext);
                if (g.flip())
                    for (size_t j = 0; j < ext; j++)
                        m[ref::H_SIG + n + j] = (uint8_t)g.draw(256);
                what = strf("the signature was extended by %zu", ext);
                break;
            }
            case 3:
                ref::put(m, ref::H_SIGSZ, 2, 0);
                what = "the signature was removed";
                if (g.flip())
                    std::fill(m.begin() + ref::H_SIG, m.end() - (long)(m.size() - 4096), 0);
                break;
            case 4:
                ref::put(m, ref::H_SIGSZ, 2, g.range(513, 65535));
                what = "the signature size is impossible";
                break;
            default: {
                Bytes s = ossl::sign(KEYS[(k + 1) % 8], a.hash_kind, ref::header_digest(f));
                std::copy(s.begin(), s.end(), m.begin() + ref::H_SIG);
                ref::put(m, ref::H_SIGSZ, 2, s.size());
                what = "the signature is by another key";
            }
            }
            c.label("signature changed");
            expect_fail(c, m, fn, pf, what);
            break;
        }
        case 4: { // wrong key
            unsigned w = (unsigned)((k + 1 + g.below(7)) % 8);
            expect_fail(c, m, fn, pub(g, w), strf("the key is %s, not %s", KEYS[w], KEYS[k]));
            c.label("wrong key");
            break;
        }
        case 5: { // truncated file
            uint64_t last = 0;
            for (auto &r : pr)
                last = std::max(last, r.off + r.len);
            if (!last)
                continue;
            uint64_t n = g.flip() ? last - 1 : g.range(4096, last - 1);
            m.resize(n);
            expect_fail(c, m, fn, pf, strf("the file was cut to %llu bytes", (unsigned long long)n));
            c.label("truncated");
            break;
        }
        case 6: { // exchange protected ranges
            if (pr.size() < 2)
                continue;
            const Rg &x = pr[g.below(pr.size())], &y = pr[g.below(pr.size())];
            uint64_t n = std::min(x.len, y.len);
            n = g.chance(50) ? n : std::min<uint64_t>(n, 4096);
            std::swap_ranges(m.begin() + (long)x.off, m.begin() + (long)(x.off + n), m.begin() + (long)y.off);
            if (m == f)
                continue;
            expect_fail(c, m, fn, pf, "contents of " + x.d + " and " + y.d + " were exchanged");
            c.label("exchanged");
            break;
        }
        case 7: { // overwrite a run of bytes anywhere in protected data
            if (pr.empty())
                continue;
            const Rg &r = pr[g.below(pr.size())];
            uint64_t at = g.below(r.len), n = std::min(r.len - at, g.range(1, 5000));
            std::fill(m.begin() + (long)(r.off + at), m.begin() + (long)(r.off + at + n), (uint8_t)g.draw(256));
            if (m == f)
                continue;
            expect_fail(c, m, fn, pf, strf("%llu bytes of %s were overwritten", (unsigned long long)n, r.d.c_str()));
            c.label("overwritten");
            break;
        }
        default: { // archive operation without signing again
            write_file(fn, f);
            CHECK(p.open_file(fn, "rb+") == BPAK_OK, "opening failed");
            std::string what;
            int rc = 0;
            switch (g.below(6)) {
            case 0: {
                std::string in = c.path("in");
                write_file(in, g.content((size_t)g.edge_size(3000)));
                rc = bpak_pkg_add_file(p.p, in.c_str(), "added", g.flip() ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0);
                what = "a part was added";
                break;
            }
            case 1:
                if (a.parts.empty()) {
                    p.close();
                    continue;
                }
                rc = bpak_pkg_delete_part(p.p, a.parts[g.below(a.parts.size())].id, g.flip());
                what = "a part was deleted";
                break;
            case 2: {
                bpak_meta_header *mh = nullptr;
                rc = bpak_add_meta(bpak_pkg_header(p.p), 0x777, 0, 4, &mh);
                if (!rc)
                    memcpy(bpak_get_meta_ptr(bpak_pkg_header(p.p), mh, uint8_t), "abc", 4), rc = bpak_pkg_write_header(p.p);
                what = "metadata was added";
                break;
            }
            case 3:
                bpak_set_key_id(bpak_pkg_header(p.p), a.key_id + 1);
                rc = bpak_pkg_write_header(p.p);
                what = "the key id was changed";
                break;
            case 4:
                bpak_set_keystore_id(bpak_pkg_header(p.p), a.ks_id ^ 0x80000000u);
                rc = bpak_pkg_write_header(p.p);
                what = "the keystore id was changed";
                break;
            default: {
                std::string in = keydir() + "p256a.pub.der";
                rc = bpak_pkg_add_key(p.p, in.c_str(), "addedkey", g.flip() ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0);
                what = "a key was added";
            }
            }
            CHECK(rc == BPAK_OK, "operation (%s) failed: %s", what.c_str(), bpak_error_string(rc));
            CHECK(!verifies(p, pf), "the archive still verifies although %s", what.c_str());
            p.close();
            CHECK(p.open_file(fn, "rb+") == BPAK_OK, "reopening failed");
            CHECK(!verifies(p, pf), "the reopened archive verifies although %s", what.c_str());
            c.label("archive operation");
            unsigned nk = pick_key(g);
            bool trees_ok = true;
            if (what == "a part was deleted") { // a deleted tree or tree data leaves the rest unverifiable
                ref::Header h = ref::parse(slurp(fn));
                for (auto &q : h.parts) {
                    bool root = false, tr = false;
                    for (auto &x : h.metas)
                        root |= x.id == ID_ROOT && x.ref == q.id;
                    for (auto &x : h.parts)
                        tr |= x.id == ref::tree_id(q.id);
                    trees_ok &= !root || tr;
                }
            }
            if (trees_ok) {
                CHECK(bpak_pkg_sign(p.p, priv(g, nk).c_str()) == BPAK_OK, "signing again failed");
                CHECK(verifies(p, pub(g, nk)), "signed again, but does not verify (%s)", what.c_str());
                p.close();
                CHECK(p.open_file(fn, "rb") == BPAK_OK, "reopening failed");
                CHECK(verifies(p, pub(g, nk)), "signed again and reopened, but does not verify (%s)", what.c_str());
            }
            p.close();
        }
        }
        effective++;
    }
    if (effective >= 3)
        c.nontrivial();
}

// ---------------------------------------------------------------- C10
static void c10(Case &c)
{
    Gen &g = c.g;
    arcgen::Opt o = opts(c);
    o.max_size = 3000;
    Arc a = arcgen::make(g, o);
    arcgen::describe(c, a);
    if (g.flip())
        a.sig = g.content((size_t)g.range(1, 512));
    std::string fn = c.path("a.bpak");
    write_file(fn, a.build());
    Pkg p;
    CHECK(p.open_file(fn, "rb+") == BPAK_OK, "opening failed");
    unsigned good = 0;
    size_t rounds = (size_t)g.range(1, 4);
    for (size_t r = 0; r < rounds; r++) {
        Bytes f0 = slurp(fn);
        switch (g.weighted({5, 4, 3, 3})) {
        case 0: { // sign the exported digest elsewhere
            uint8_t dg[64];
            size_t n = sizeof dg;
            CHECK(bpak_pkg_update_hash(p.p, (char *)dg, &n) == BPAK_OK, "update_hash failed");
            Bytes d(dg, dg + n);
            CHECK(d == ref::header_digest(f0), "the exported digest is not the header digest");
            unsigned k = pick_key(g);
            Bytes s = ossl::sign(KEYS[k], a.hash_kind, d);
            uint8_t *exact = (uint8_t *)malloc(s.size());
            memcpy(exact, s.data(), s.size());
            c.log("external signature by %s, %zu bytes\n", KEYS[k], s.size());
            int rc = bpak_pkg_write_raw_signature(p.p, exact, s.size());
            free(exact);
            CHECK(rc == BPAK_OK, "writing a %zu byte signature failed: %s", s.size(), bpak_error_string(rc));
            fflush(p.p->fp);
            a.sig = s;
            Bytes f = slurp(fn), want = a.build();
            CHECK(f == want, "archive with external signature is not as expected: %s", cmp(f, want).c_str());
            expect_good(p, f, g, k, "external signature");
            if (g.flip()) {
                p.close();
                CHECK(p.open_file(fn, "rb+") == BPAK_OK, "reopening failed");
                expect_good(p, f, g, k, "external signature, reopened");
            }
            unsigned w = (unsigned)((k + 1 + g.below(7)) % 8);
            CHECK(!verifies(p, pub(g, w)), "verifies with another key");
            good++;
            break;
        }
        case 1: { // arbitrary bytes
            Bytes s = g.content((size_t)(g.chance(30) ? g.pick<uint64_t>({0, 1, 511, 512}) : g.range(0, 512)));
            uint8_t *exact = (uint8_t *)malloc(s.size() ? s.size() : 1);
            memcpy(exact, s.data(), s.size());
            c.log("raw signature of %zu bytes\n", s.size());
            int rc = bpak_pkg_write_raw_signature(p.p, exact, s.size());
            free(exact);
            CHECK(rc == BPAK_OK, "writing a %zu byte signature failed", s.size());
            fflush(p.p->fp);
            a.sig = s;
            Bytes f = slurp(fn), want = a.build();
            CHECK(f == want, "archive with raw signature is not as expected: %s", cmp(f, want).c_str());
            break;
        }
        case 2: { // too large
            size_t n = g.chance(30) ? (size_t)(g.flip() ? 65536 : 131072) + (size_t)g.below(513) : g.flip() ? 513 : (size_t)g.range(513, 3000);
            Bytes s = g.content(n);
            uint8_t *exact = (uint8_t *)malloc(n);
            memcpy(exact, s.data(), n);
            Bytes h0((uint8_t *)&p.p->header, (uint8_t *)&p.p->header + 4096);
            c.log("signature of %zu bytes\n", n);
            int rc = bpak_pkg_write_raw_signature(p.p, exact, n);
            free(exact);
            CHECK(rc != BPAK_OK, "a signature of %zu bytes was accepted", n);
            fflush(p.p->fp);
            CHECK(memcmp(&p.p->header, h0.data(), 4096) == 0, "a refused signature of %zu bytes changed the header", n);
            CHECK(slurp(fn) == f0, "a refused signature of %zu bytes changed the file", n);
            break;
        }
        default: { // take the signature out of a copy of the header
            bpak_header *h = (bpak_header *)malloc(4096);
            struct F { void *q; ~F() { free(q); } } fr{h};
            Bytes hb = a.header();
            if (g.chance(40)) {
                unsigned sz = g.chance(50) ? (unsigned)g.range(513, 65535) : (unsigned)g.below(513);
                ref::put(hb, ref::H_SIGSZ, 2, sz);
            }
            memcpy(h, hb.data(), 4096);
            unsigned sz = (unsigned)ref::le(hb, ref::H_SIGSZ, 2);
            size_t cap = g.flip() ? std::min(sz, 512u) : (size_t)g.below(600);
            if (g.chance(30) && sz && sz <= 512)
                cap = sz - 1;
            uint8_t *out = (uint8_t *)malloc(cap ? cap : 1);
            struct F fo{out};
            memset(out, 0xa5, cap);
            size_t n = cap;
            c.log("take out a signature of %u bytes into %zu\n", sz, cap);
            int rc = bpak_copyz_signature(h, out, &n);
            bool ok = sz >= 1 && sz <= 512 && sz <= cap;
            CHECK((rc == BPAK_OK) == ok, "taking a %u byte signature into a %zu byte buffer returned %d", sz, cap, rc);
            Bytes got((uint8_t *)h, (uint8_t *)h + 4096);
            if (ok) {
                CHECK(n == sz && memcmp(out, &hb[ref::H_SIG], sz) == 0, "the signature taken out is not the stored one");
                for (size_t i = sz; i < cap; i++)
                    CHECK(out[i] == 0xa5, "byte %zu beyond the signature was written", i);
                Bytes want = hb;
                std::fill(want.begin() + ref::H_SIG, want.end(), 0);
                CHECK(got == want, "header after taking the signature out: %s", cmp(got, want).c_str());
            } else {
                CHECK(got == hb, "a refused request changed the header");
                for (size_t i = 0; i < cap; i++)
                    CHECK(out[i] == 0xa5, "a refused request wrote to the buffer");
            }
            good++;
        }
        }
    }
    if (good && rounds >= 2)
        c.nontrivial();
}

static std::vector<Prop> props = {
    {"C08", "sign", c08, 2500, 60000,
     "model-built archives (0-4 parts, trees, excluded and encoded parts, metadata, stale hashes and signatures) signed 1-3 times with P-256/384/521 "
     "and RSA-4096 keys in four encodings, checked by OpenSSL and by the library before and after reopening; non-trivial: two parts or two rounds", 60},
    {"C09", "tamper", c09, 3500, 60000,
     "archives signed by OpenSSL, then mutated: header bits, payload/tree bits, runs, exchanges, truncation, signatures, keys, archive operations; "
     "non-trivial: at least three effective mutations", 60},
    {"C10", "external", c10, 8000, 80000,
     "externally produced and arbitrary signatures of all sizes written and taken out of archives; non-trivial: two steps including an external "
     "signature or a take-out", 60},
};
PBT_MAIN(props)
