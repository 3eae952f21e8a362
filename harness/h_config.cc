// C39 builds of the library without LZMA, hash trees or mbedTLS, and the minimal build, against the full one.
// PBT_CONFIG(full:) PBT_CONFIG(nolzma:LZMA) PBT_CONFIG(nomerkle:MERKLE) PBT_CONFIG(bare:MERKLE LZMA MBEDTLS)
// PBT_CONFIG(minimal:MERKLE LZMA MBEDTLS+)
#include "configs.hh"
#include "scen.hh"

struct Config {
    const char *name;
    const Lib *l, *whole; // the full build with the same backends
    unsigned lacks;
    const char *broken;
};
#ifndef BROKEN_full
#define BROKEN_full nullptr
#endif
#ifndef BROKEN_nolzma
#define BROKEN_nolzma nullptr
#endif
#ifndef BROKEN_nomerkle
#define BROKEN_nomerkle nullptr
#endif
#ifndef BROKEN_bare
#define BROKEN_bare nullptr
#endif
#ifndef BROKEN_minimal
#define BROKEN_minimal nullptr
#endif
static const Config NOLZMA = {"without LZMA", &nolzma_lib, &own_lib, LZMA, BROKEN_nolzma},
                    NOMERKLE = {"without hash trees", &nomerkle_lib, &own_lib, TREES, BROKEN_nomerkle},
                    BARE = {"without LZMA, hash trees and mbedTLS", &bare_lib, &full_lib, LZMA | TREES, BROKEN_bare},
                    MINIMAL = {"minimal", &minimal_lib, &own_lib, 0, BROKEN_minimal};
struct Use { // calls go to this build
    const Lib *old = lib;
    explicit Use(const Lib *l) { lib = l; }
    ~Use() { lib = old; }
};
static void builds(const Config &k)
{
    CHECK(!k.broken, "the build %s of the library cannot be made: %s", k.name, k.broken);
    CHECK(!BROKEN_full, "the full library cannot be linked: %s", BROKEN_full);
}
static int no_trees(bpak_package *, const char *, const char *, uint8_t) { return -BPAK_NOT_SUPPORTED; }
static int no_tree_check(bpak_io_t, off_t, size_t, off_t, bpak_merkle_hash_t, uint8_t *, void *) { return -BPAK_NOT_SUPPORTED; }

static int play(Scenario &s, const std::function<int()> &what, const Lib *l, Bytes &out)
{
    Use u(l);
    if (s.reset)
        s.reset();
    srandom(1);
    REC = &out;
    int rc = what();
    REC = nullptr;
    return rc;
}
static void differ(Case &c, const Config &k)
{
    Gen &g = c.g;
    builds(k);
    P.arm(0, 0, 0);
    P.hook = nullptr;
    REC = nullptr;
    h_live = 0;
    a_live = 0;
    mask_signatures = true;
    lib = &own_lib;
    Lib red = *k.l; // what a build lacks cannot be called
    if (k.lacks & TREES) {
        if (!red.fn_bpak_pkg_add_file_with_merkle_tree)
            red.fn_bpak_pkg_add_file_with_merkle_tree = no_trees;
        if (!red.fn_bpak_verify_merkle_tree)
            red.fn_bpak_verify_merkle_tree = no_tree_check;
    }
#define X(f) CHECK(red.fn_##f, "the build %s has no function " #f, k.name);
    ALL_FUNCS(X)
#undef X
    if (&k == &BARE) {
        bool alloc = g.flip();
        for (const Lib *l : {k.l, k.whole}) {
            Use u(l);
            backends(true, true, false);
            if (alloc)
                backends(false, false, true);
            else
                bpak_set_calloc_free(calloc, free);
        }
    }
    bool hostile = g.chance(25);
    Scenario s = pick(c, g, {3, 4, 2, 4, 5, 4, &k == &BARE ? 2u : 1u, 5}, hostile);
    Bytes want, got;
    int rw = play(s, s.run, k.whole, want), rg = play(s, s.run, &red, got);
    unsigned miss = s.needs & k.lacks;
    c.label(std::string(miss ? "needs the missing" : "same") + (rw ? ", failed" : ", done"));
    if (!miss) {
        if ((s.needs & JUDGES_TREES) && (k.lacks & TREES) && rw)
            return; // a tree may be what was refused
        CHECK(rg == rw, "%s: the full library says %d, the build %s %d", s.what.c_str(), rw, k.name, rg);
        CHECK(got == want, "%s: the build %s gives other results than the full library: %s", s.what.c_str(), k.name, diff_desc(got, want).c_str());
        if (!rw)
            c.nontrivial();
    } else if (s.bare) {
        Bytes o;
        int rb = play(s, s.bare, k.whole, o);
        CHECK(rg == rb, "%s: the build %s says %d, the payload hash %d", s.what.c_str(), k.name, rg, rb);
        c.nontrivial();
    } else {
        CHECK(rg != 0, "%s: done by the build %s, which lacks what is needed for it (the full one says %d)", s.what.c_str(), k.name, rw);
        c.nontrivial();
    }
    sound_backends(k.name);
}
static void nolzma(Case &c) { differ(c, NOLZMA); }
static void nomerkle(Case &c) { differ(c, NOMERKLE); }
static void bare(Case &c) { differ(c, BARE); }

// without backends of the user, a build without mbedTLS refuses to hash, sign, verify and load keys
static void none(Case &c)
{
    Gen &g = c.g;
    builds(BARE);
    Use u(&bare_lib);
    bpak_hash_setup(nullptr, nullptr, nullptr, nullptr);
    bpak_crypto_setup(nullptr, nullptr, nullptr, nullptr, nullptr);
    bpak_set_calloc_free(calloc, free);
    arcgen::Opt o;
    o.max_parts = 3;
    o.max_size = 2000;
    o.max_blocks = 1;
    Arc a = arcgen::make(g, o);
    arcgen::describe(c, a);
    Bytes f = a.build();
    std::string p = c.path("arc"), n = c.path("new");
    write_file(p, f);
    write_file(n, g.content((size_t)g.range(1, 3000)));
    bpak_header h;
    memcpy(&h, f.data(), 4096);
    uint8_t out[64];
    size_t sz = sizeof out;
    bpak_key *k = nullptr;
    int op = (int)g.below(8), rc = 0;
    const char *what = "";
    Bytes key = slurp(keydir() + "p256a.pub.der");
    Pkg x;
    if (op >= 4)
        CHECK(x.open_file(p, "rb+") == 0, "the archive cannot be opened");
    switch (op) {
    case 0: what = "verify_payload", rc = bpak_verify_payload(&h, r_mem, 4096, &f); break;
    case 1: what = "compute_header_hash", rc = bpak_verify_compute_header_hash(&h, out, &sz); break;
    case 2: what = "load_public_key", rc = bpak_crypto_load_public_key((keydir() + "p256a.pub.pem").c_str(), &k); break;
    case 3: what = "parse_public_key", rc = bpak_crypto_parse_public_key(key.data(), key.size(), &k); break;
    case 4: what = "pkg_sign", rc = bpak_pkg_sign(x.p, (keydir() + "p256a.key.pem").c_str()); break;
    case 5: what = "pkg_update_hash", rc = bpak_pkg_update_hash(x.p, (char *)out, &sz); break;
    case 6: what = "pkg_add_key", rc = bpak_pkg_add_key(x.p, (keydir() + "p256a.pub.pem").c_str(), "key", 0); break;
    default: what = "pkg_part_sha256", rc = bpak_pkg_part_sha256(x.p, out, 32, a.parts.empty() ? 1 : a.parts[0].id);
    }
    x.close();
    c.label(what);
    c.nontrivial();
    CHECK(rc != 0, "%s succeeded without any backend", what);
    CHECK(!k, "%s handed out a key", what);
    if (op != 6 && op != 4)
        CHECK(slurp(p) == f, "%s failed and changed the archive", what);
}

// a history of header operations and texts, by the minimal build and by the full one
static void minimal(Case &c)
{
    Gen &g = c.g;
    builds(MINIMAL);
    Lib two[2] = {own_lib, minimal_lib};
#define X(f) CHECK(two[1].fn_##f, "the minimal build has no function " #f);
    SMALL_FUNCS(X)
#undef X
    arcgen::Opt o;
    o.max_parts = 6;
    o.max_size = 600;
    o.max_blocks = 1;
    Bytes start = g.chance(70) ? arcgen::make(g, o).build() : g.content(4096);
    start.resize(4096);
    bpak_header h[2];
    for (auto &x : h)
        memcpy(&x, start.data(), 4096);
    size_t n = (size_t)g.range(1, 25);
    bool fine = two[0].fn_bpak_valid_header(&h[0]) == 0;
    for (size_t i = 0; i < n; i++) {
        uint64_t a = g.draw(1u << 30), b = g.draw(1u << 30);
        uint32_t id = g.chance(60) ? (uint32_t)(a % 6) : (uint32_t)a, ref = (uint32_t)(b % 3);
        uint16_t size = (uint16_t)(g.chance(20) ? g.below(3000) : g.below(60));
        std::string name = strf("n%u", id);
        int op = (int)g.below(16);
        std::vector<std::string> r(2);
        for (int w = 0; w < 2; w++) {
            Lib &l = two[w];
            bpak_header *x = &h[w];
            bpak_meta_header *m = nullptr;
            bpak_part_header *p = nullptr;
            char buf[512] = "";
            std::string &s = r[w];
            if (!fine && op != 4)
                op = 5;
            switch (op) {
            case 0: s = strf("add meta %d", l.fn_bpak_add_meta(x, id, ref, size, &m)); s += strf(" at %ld", m ? (long)((char *)m - (char *)x) : -1L); break;
            case 1: s = strf("add part %d", l.fn_bpak_add_part(x, id, &p)); s += strf(" at %ld", p ? (long)((char *)p - (char *)x) : -1L);
                if (p) {
                    p->size = a % 5000;
                    p->pad_bytes = (uint16_t)((512 - p->size % 512) % 512);
                }
                break;
            case 2: { int rc = l.fn_bpak_get_meta(x, id, ref, &m); s = strf("get meta %d at %ld", rc, m ? (long)((char *)m - (char *)x) : -1L); if (!rc) { rc = l.fn_bpak_meta_to_string(x, m, buf, sizeof buf); s += strf(" %d %s", rc, buf); if (b & 1) l.fn_bpak_del_meta(x, m); } break; }
            case 3: { int rc = l.fn_bpak_get_part(x, id, &p); s = strf("get part %d at %ld", rc, p ? (long)((char *)p - (char *)x) : -1L); if (!rc) { s += strf(" %lld %lld %lld %08x", (long long)l.fn_bpak_part_offset(x, p), (long long)l.fn_bpak_part_size(p), (long long)l.fn_bpak_part_size_wo_pad(p), l.fn_bpak_hash_tree_id_to_part_id(x, id)); if (b & 1) l.fn_bpak_del_part(x, p); } break; }
            case 4: s = strf("init %d", l.fn_bpak_init_header(x)); fine = true; break;
            case 5: s = strf("valid %d", l.fn_bpak_valid_header(x)); break;
            case 6: s = strf("transport %d", l.fn_bpak_add_transport_meta(x, ref, id, (uint32_t)b)); break;
            case 7: s = strf("signature %d", l.fn_bpak_copyz_signature(x, (uint8_t *)buf, (size_t *)&a)); break;
            case 8: l.fn_bpak_set_key_id(x, id); break;
            case 9: l.fn_bpak_set_keystore_id(x, (uint32_t)b); break;
            case 10: s = strf("id %08x %s", l.fn_bpak_id(name.c_str()), l.fn_bpak_id_to_string(id) ? l.fn_bpak_id_to_string(id) : "-"); break;
            case 11: s = strf("texts %s %s %s", l.fn_bpak_error_string(-(int)(a % 40)), l.fn_bpak_hash_kind((uint8_t)(a % 6)), l.fn_bpak_signature_kind((uint8_t)(a % 7))); break;
            case 12: s = strf("tree id %08x %08x", l.fn_bpak_part_name_to_hash_tree_id(name.c_str()), l.fn_bpak_part_id_to_hash_tree_id(id)); break;
            case 13: { size_t k = b % 70; int rc = l.fn_bpak_bin2hex((uint8_t *)x + 8, k, buf, (size_t)(a % 160)); s = strf("hex %d", rc); if (!rc) s += buf; break; }
            case 14: { int rc = l.fn_bpak_uuid_to_string((uint8_t *)x + 100, buf, a % 60); s = strf("uuid %d", rc); if (!rc) s += buf; break; }
            default: s = strf("version %s", l.fn_bpak_version());
            }
        }
        c.log("%s\n", r[0].c_str());
        CHECK(r[0] == r[1], "the full library: '%s', the minimal one: '%s'", r[0].c_str(), r[1].c_str());
        CHECK(memcmp(&h[0], &h[1], 4096) == 0, "after '%s' the headers differ", r[0].c_str());
        if (op != 5)
            c.nontrivial();
        fine = two[0].fn_bpak_valid_header(&h[0]) == 0;
    }
}

static std::vector<Prop> props = {
    {"C39", "without LZMA", nolzma, 10000, 150000,
     "deltas, patches, hash trees, verification, streaming and file transport, archive histories and keystores, by the full library and by a build without LZMA: same results and outputs, or refused where LZMA is needed; non-trivial: done by the full library, or refused for the missing part", 60},
    {"C39", "without hash trees", nomerkle, 10000, 150000, "the same with a build without hash trees (verification then judges the payload hash alone)", 60},
    {"C39", "bare", bare, 10000, 150000, "the same with a build without LZMA, hash trees and mbedTLS, with hash, signature and key functions of the user in both", 60},
    {"C39", "no backend", none, 1000, 10000, "operations that hash, sign, verify or load keys, in a build without mbedTLS and without functions of the user: refused; non-trivial: all", 60},
    {"C39", "minimal", minimal, 40000, 600000, "histories of header operations, ids and texts by the minimal build (the sources lib/CMakeLists.txt lists for it, linked on their own) and the full library: same results, headers and texts; non-trivial: not only validity", 60},
};
PBT_MAIN(props)
