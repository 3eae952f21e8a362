// C22, C23: identifiers and text renderings.   PBT_NEEDS_CLI
#include "cli.hh"
#include <bpak/bpak.h>
#include <bpak/crc.h>
#include <bpak/id.h>
#include <bpak/utils.h>
using namespace pbt;
using namespace model;
using namespace cli;

static std::string gen_name(Gen &g, size_t mx = 300)
{
    static const char *N[] = {"bpak-package", "fs", "kernel", "fs-hash-tree", "", "a", "pb-development", "-hash-tree", "0x", "x-hash-tree-hash-tree"};
    std::string s;
    if (g.chance(30))
        s = N[g.below(10)];
    size_t n = g.chance(70) ? (size_t)g.below(12) : (size_t)g.logsize(mx);
    uint64_t mode = g.below(3);
    for (size_t i = 0; i < n; i++)
        s += (char)(mode == 0 ? 'a' + g.below(26) : mode == 1 ? 32 + g.below(95) : 1 + g.below(255));
    return s;
}
static char *exact(const std::string &s) // no spare bytes, so reads beyond the end are seen
{
    char *p = (char *)malloc(s.size() + 1);
    memcpy(p, s.c_str(), s.size() + 1);
    return p;
}
static void ids(Case &c)
{
    Gen &g = c.g;
    std::string n = gen_name(g, c.thorough ? 20000 : 3000);
    uint32_t want = ref::id(n);
    c.log("name of %zu bytes: %s\n", n.size(), hexs((const uint8_t *)n.data(), std::min<size_t>(n.size(), 60)).c_str());
    char *p = exact(n);
    uint32_t got = bpak_id(p), tree = bpak_part_name_to_hash_tree_id(p);
    free(p);
    CHECK(got == want, "id 0x%08x instead of 0x%08x", got, want);
    CHECK(tree == ref::id(n + "-hash-tree"), "hash tree id 0x%08x instead of 0x%08x", tree, ref::id(n + "-hash-tree"));
    CHECK(bpak_part_id_to_hash_tree_id(want) == ref::id(n + "-hash-tree"), "hash tree id of id 0x%08x: 0x%08x", want, bpak_part_id_to_hash_tree_id(want));
    // in pieces, from any start value, over bytes that are not text
    Bytes b = g.flip() ? Bytes(n.begin(), n.end()) : g.content((size_t)g.logsize(c.thorough ? 100000 : 10000));
    uint32_t init = g.flip() ? 0 : (uint32_t)g.draw(1ull << 32), crc = init;
    size_t at = 0, pieces = 0;
    while (at < b.size()) {
        size_t k = (size_t)std::min<uint64_t>(b.size() - at, g.chance(5) ? 0 : 1 + g.logsize(b.size()));
        uint8_t *q = (uint8_t *)malloc(k ? k : 1);
        memcpy(q, b.data() + at, k);
        crc = bpak_crc32(crc, q, (uint32_t)k);
        free(q);
        at += k;
        if (++pieces > 40 && at < b.size()) {
            crc = bpak_crc32(crc, b.data() + at, (uint32_t)(b.size() - at));
            at = b.size();
        }
    }
    CHECK(crc == ref::crc32(init, b.data(), b.size()), "crc of %zu bytes in %zu pieces: 0x%08x instead of 0x%08x", b.size(), pieces, crc, ref::crc32(init, b.data(), b.size()));
    if (n.size() >= 1)
        c.nontrivial();
    c.label(pieces > 1 ? "in pieces" : "whole");
}
static const struct {
    const char *name;
    uint32_t id;
    bool text;
} BUILTIN[] = {
    {"bpak-transport", BPAK_ID_BPAK_TRANSPORT, true},   {"merkle-salt", BPAK_ID_MERKLE_SALT, true},
    {"merkle-root-hash", BPAK_ID_MERKLE_ROOT_HASH, true}, {"keystore-provider-id", BPAK_ID_KEYSTORE_PROVIDER_ID, true},
    {"bpak-version", BPAK_ID_BPAK_VERSION, true},       {"pb-load-addr", BPAK_ID_PB_LOAD_ADDR, true},
    {"bpak-package", BPAK_ID_BPAK_PACKAGE, true},       {"bpak-key-id", BPAK_ID_BPAK_KEY_ID, false},
    {"bpak-key-store", BPAK_ID_BPAK_KEY_STORE, false},  {"bsdiff", BPAK_ID_BSDIFF, false},
    {"bsdiff-lzma", BPAK_ID_BSDIFF_LZMA, false},        {"bsdiff-no-comp", BPAK_ID_BSDIFF_NO_COMP, false},
    {"bspatch", BPAK_ID_BSPATCH, false},                {"bspatch-lzma", BPAK_ID_BSPATCH_LZMA, false},
    {"bspatch-no-comp", BPAK_ID_BSPATCH_NO_COMP, false}, {"merkle-generate", BPAK_ID_MERKLE_GENERATE, false},
    {"remove-data", BPAK_ID_REMOVE_DATA, false},
};
static void builtin_ids(Case &c)
{
    size_t i = (size_t)c.g.below(sizeof BUILTIN / sizeof *BUILTIN);
    auto &b = BUILTIN[i];
    CHECK(b.id == ref::id(b.name) && bpak_id(b.name) == b.id, "built-in id of '%s' is 0x%08x, bpak_id says 0x%08x", b.name, b.id, bpak_id(b.name));
    const char *s = bpak_id_to_string(b.id);
    // a name is known or it is empty, but never that of another id
    CHECK(s && (!strcmp(s, b.name) || (!b.text && !*s)), "0x%08x (%s) is called '%s'", b.id, b.name, s ? s : "(null)");
    uint32_t o = c.g.flip() ? (uint32_t)c.g.draw(1ull << 32) : b.id ^ (1u << c.g.below(32));
    s = bpak_id_to_string(o);
    CHECK(s && (!*s || ref::id(s) == o), "0x%08x is called '%s'", o, s ? s : "(null)");
    c.nontrivial();
}
static void reverse(Case &c)
{
    Gen &g = c.g;
    size_t n = (size_t)(g.chance(20) ? g.range(0, 32) : g.range(0, 6));
    bpak_header *h = (bpak_header *)malloc(sizeof *h);
    bpak_init_header(h);
    std::vector<uint32_t> ids;
    for (size_t i = 0; i < n; i++) {
        uint32_t id = g.flip() && !ids.empty() ? ref::tree_id(ids[g.below(ids.size())]) : 1 + (uint32_t)g.below((1ull << 32) - 1);
        if (id == 0 || std::count(ids.begin(), ids.end(), id))
            continue;
        bpak_part_header *p = nullptr;
        if (bpak_add_part(h, id, &p) != BPAK_OK)
            break;
        ids.push_back(id);
    }
    bpak_header before = *h;
    for (int k = 0; k < 4; k++) {
        uint32_t q = !ids.empty() && g.chance(70) ? ref::tree_id(ids[g.below(ids.size())]) : g.flip() && !ids.empty() ? ids[g.below(ids.size())] : (uint32_t)g.draw(1ull << 32);
        uint32_t want = 0;
        for (auto x : ids)
            if (ref::tree_id(x) == q)
                want = x;
        uint32_t got = bpak_hash_tree_id_to_part_id(h, q);
        CHECK(got == want, "hash tree 0x%08x belongs to 0x%08x, not 0x%08x", q, want, got);
        if (want)
            c.nontrivial();
    }
    CHECK(!memcmp(&before, h, sizeof before), "looking up a hash tree's part changed the header");
    free(h);
}
static void cli_ids(Case &c)
{
    Gen &g = c.g;
    std::string n = gen_name(g, 200);
    if (n.empty() || n[0] == '-')
        n = "n" + n;
    std::string dir = c.path("w");
    mkdir(dir.c_str(), 0700);
    Res r = run(dir, {"generate", "id", n});
    CHECK(r.ok() && r.out == strf("id(\"%s\") = 0x%08x\n", n.c_str(), ref::id(n)), "generate id: status %d, printed %s", r.status, r.out.c_str());
    // a part is found by its name and by its identifier in any of the usual spellings
    std::string data = "some data";
    Arc a;
    uint32_t id = ref::id(n);
    if (!id)
        return;
    a.add(id, Bytes(data.begin(), data.end()), 0);
    a.add_meta(id, 0, Bytes{1, 2, 3});
    a.update_hash();
    write_file(dir + "/a.bpak", a.build());
    std::string h = g.pick<std::string>({strf("0x%x", id), strf("0x%08x", id), strf("0x%X", id)});
    for (auto &s : {n, h}) {
        if (s == n && s.compare(0, 2, "0x") == 0)
            continue;
        Res x = run(dir, {"show", "a.bpak", "-p", s});
        CHECK(x.ok() && x.out.find(strf("0x%x", id)) != std::string::npos, "show -p %s: status %d, printed %s", s.c_str(), x.status, x.out.c_str());
        Res y = run(dir, {"extract", "a.bpak", "-p", s});
        CHECK(y.ok() && y.out == data, "extract -p %s: status %d", s.c_str(), y.status);
        Res z = run(dir, {"extract", "a.bpak", "-m", s});
        CHECK(z.ok() && z.out == std::string("\1\2\3"), "extract -m %s: status %d", s.c_str(), z.status);
    }
    std::string o = strf("0x%x", id ^ (1u << g.below(32)));
    if (o != "0x0") {
        Res x = run(dir, {"show", "a.bpak", "-p", o});
        CHECK(!x.ok(), "show -p %s found a part", o.c_str());
    }
    c.nontrivial();
}

// ------------------------------------------------------------------------------------------------ C23
// a buffer of exactly n bytes with known contents
struct Buf {
    char *p;
    size_t n;
    explicit Buf(size_t n_) : p((char *)malloc(n_ ? n_ : 1)), n(n_) { memset(p, 0xA7, n ? n : 1); }
    ~Buf() { free(p); }
    Buf(const Buf &) = delete;
    Buf &operator=(const Buf &) = delete;
    char *ptr() { return n ? p : p + 1; } // size 0: nothing may be touched
    bool terminated() const { return memchr(p, 0, n) != nullptr; }
};
static void hex(Case &c)
{
    Gen &g = c.g;
    Bytes d = g.content((size_t)(g.chance(70) ? g.range(0, 40) : g.logsize(5000)));
    size_t need = 2 * d.size() + 1;
    size_t n = g.chance(40) ? need + (size_t)g.below(5) : g.chance(60) ? need - std::min<size_t>(need, 1 + (size_t)g.below(4)) : (size_t)g.below(need + 1);
    uint8_t *s = (uint8_t *)malloc(d.size() ? d.size() : 1);
    memcpy(s, d.data(), d.size());
    Buf b(n);
    int rc = bpak_bin2hex(s, d.size(), b.ptr(), n);
    bool same = !memcmp(s, d.data(), d.size());
    free(s);
    CHECK(same, "bin2hex changed its input");
    c.log("%zu bytes into %zu\n", d.size(), n);
    if (n >= need) {
        CHECK(rc == BPAK_OK, "bin2hex of %zu bytes into %zu failed (%d)", d.size(), n, rc);
        CHECK(b.terminated() && std::string(b.p) == hexs(d.data(), d.size()), "bin2hex of %s gave %s", hexs(d.data(), d.size()).c_str(), b.terminated() ? b.p : "no string");
    } else
        CHECK(rc != BPAK_OK, "bin2hex of %zu bytes into %zu reported success", d.size(), n);
    c.nontrivial();
    c.label(n >= need ? "fits" : "too small");
}
static std::string uuid_text(const uint8_t *u)
{
    std::string s;
    for (int i = 0; i < 16; i++) {
        s += strf("%02x", u[i]);
        if (i == 3 || i == 5 || i == 7 || i == 9)
            s += "-";
    }
    return s;
}
static void uuid(Case &c)
{
    Gen &g = c.g;
    Bytes d = g.content(16);
    size_t n = g.chance(50) ? 37 + (size_t)g.below(10) : (size_t)g.below(38);
    uint8_t *s = (uint8_t *)malloc(16);
    memcpy(s, d.data(), 16);
    Buf b(n);
    int rc = bpak_uuid_to_string(s, b.ptr(), n);
    free(s);
    if (n >= 37)
        CHECK(rc == BPAK_OK && b.terminated() && uuid_text(d.data()) == b.p, "uuid %s shown as %s (%d)", uuid_text(d.data()).c_str(), b.terminated() ? b.p : "no string", rc);
    else
        CHECK(rc != BPAK_OK, "uuid into %zu bytes reported success", n);
    c.nontrivial();
    c.label(n >= 37 ? "fits" : "too small");
}
static const struct {
    uint32_t id;
    size_t need;
} TYPED[] = {{BPAK_ID_BPAK_KEY_ID, 4}, {BPAK_ID_BPAK_KEY_STORE, 4}, {BPAK_ID_BPAK_PACKAGE, 16}, {BPAK_ID_BPAK_TRANSPORT, 32}, {BPAK_ID_MERKLE_SALT, 32},
             {BPAK_ID_MERKLE_ROOT_HASH, 32}, {BPAK_ID_PB_LOAD_ADDR, 8}, {BPAK_ID_BPAK_VERSION, 0}, {BPAK_ID_KEYSTORE_PROVIDER_ID, 4}};
static bool text_of(uint32_t id, const Bytes &d, std::string &s) // false: too short for its type
{
    auto u = [&](size_t o, int n) { return ref::le(d, o, n); };
    s.clear();
    switch (id) {
    case BPAK_ID_BPAK_KEY_ID:
    case BPAK_ID_BPAK_KEY_STORE:
        if (d.size() < 4)
            return false;
        s = strf("%x", (unsigned)u(0, 4));
        return true;
    case BPAK_ID_KEYSTORE_PROVIDER_ID:
        if (d.size() < 4)
            return false;
        s = strf("0x%x", (unsigned)u(0, 4));
        return true;
    case BPAK_ID_BPAK_PACKAGE:
        if (d.size() < 16)
            return false;
        s = uuid_text(d.data());
        return true;
    case BPAK_ID_BPAK_TRANSPORT:
        if (d.size() < 8)
            return false; // 8 to 31 bytes hold what is shown but are no complete entry: shown or refused
        s = strf("Encode: %08x, Decode: %08x", (unsigned)u(0, 4), (unsigned)u(4, 4));
        return true;
    case BPAK_ID_MERKLE_SALT:
    case BPAK_ID_MERKLE_ROOT_HASH:
        if (d.size() < 32)
            return false;
        s = hexs(d.data(), 32);
        return true;
    case BPAK_ID_PB_LOAD_ADDR:
        if (d.size() < 8)
            return false;
        s = strf("Entry: 0x%08llX", (unsigned long long)u(0, 8));
        return true;
    case BPAK_ID_BPAK_VERSION:
        for (auto ch : d) {
            if (!ch)
                break;
            s += (char)ch;
        }
        return true;
    default: return true;
    }
}
static void meta_text(Case &c)
{
    Gen &g = c.g;
    // an entry anywhere in the metadata area of a header full of other bytes
    size_t t = (size_t)g.below(10);
    uint32_t id = t < 9 ? TYPED[t].id : (uint32_t)g.draw(1ull << 32);
    size_t need = t < 9 ? TYPED[t].need : 0;
    size_t sz = g.chance(60) ? need + (t == 7 ? (size_t)g.below(90) : (size_t)g.below(3) * 4) : (size_t)g.below(need + 3);
    if (t == 9)
        sz = (size_t)g.below(100);
    if (t == 8 && id == TYPED[8].id && g.chance(3))
        sz = 1920;
    size_t off = g.chance(40) ? 1920 - sz : (size_t)g.below(1920 - sz + 1);
    Bytes d = g.content(sz);
    if (t == 7 && g.flip()) // a version string, terminated or not
        for (auto &x : d)
            x = x ? x : 'v';
    bpak_header *h = (bpak_header *)malloc(sizeof *h);
    memset(h, (int)g.below(256), sizeof *h);
    h->magic = BPAK_HEADER_MAGIC;
    bpak_meta_header *m = &h->meta[g.below(BPAK_MAX_META)];
    m->id = id;
    m->size = (uint16_t)sz;
    m->offset = (uint16_t)off;
    m->part_id_ref = (uint32_t)g.draw(5);
    memcpy(h->metadata + off, d.data(), sz);
    bpak_header before = *h;
    std::string want;
    bool typed_ok = text_of(id, d, want);
    size_t full = want.size() + 1;
    size_t n = g.chance(45) ? full + (size_t)g.below(3) : g.chance(50) ? 128 : (size_t)g.below(full + 1);
    c.log("entry 0x%08x of %zu bytes at %zu into a buffer of %zu\n", id, sz, off, n);
    Buf b(n);
    int rc = bpak_meta_to_string(h, m, b.ptr(), n);
    CHECK(!memcmp(&before, h, sizeof before), "rendering metadata changed the header");
    if (rc == BPAK_OK && n)
        CHECK(b.terminated(), "rendered text is not terminated");
    if (!typed_ok) {
        CHECK(rc != BPAK_OK || n == 0 || !b.p[0], "an entry too short for its type is shown as '%s'", b.p);
        c.label("short entry");
    } else if (id == BPAK_ID_BPAK_TRANSPORT && sz < 32 && rc != BPAK_OK) {
        c.label("incomplete transport entry");
    } else if (n >= full) {
        CHECK(rc == BPAK_OK && want == b.p, "shown as '%s' (%d) instead of '%s'", rc == BPAK_OK ? b.p : "", rc, want.c_str());
        c.label("fits");
    } else {
        if (rc == BPAK_OK && n)
            CHECK(want.compare(0, strlen(b.p), b.p) == 0, "shown as '%s' instead of the start of '%s'", b.p, want.c_str());
        c.label("too small");
    }
    // other bytes of the header have no influence
    Rng r{g.draw(UINT64_MAX)};
    for (size_t i = 0; i < 1920; i++)
        if (i < off || i >= off + sz)
            h->metadata[i] = (uint8_t)r.next();
    memset(&h->payload_hash, 0x5c, sizeof h->payload_hash);
    Buf b2(n);
    int rc2 = bpak_meta_to_string(h, m, b2.ptr(), n);
    CHECK(rc2 == rc && (rc != BPAK_OK || !n || !strcmp(b.p, b2.p)), "bytes outside the entry change what is shown: '%s' / '%s'", rc == BPAK_OK && n ? b.p : "",
          rc2 == BPAK_OK && n ? b2.p : "");
    free(h);
    if (t < 9)
        c.nontrivial();
}
// the same entries through the command line, next to each other in one archive
static void shown(Case &c)
{
    Gen &g = c.g;
    Arc a;
    size_t n = (size_t)g.range(1, 8);
    for (size_t i = 0; i < n; i++) {
        size_t t = (size_t)g.below(9);
        size_t need = TYPED[t].need;
        size_t sz = g.chance(75) ? need + (t == 7 ? (size_t)g.below(60) : 0) : (size_t)g.below(need + 1);
        if (TYPED[t].id == BPAK_ID_BPAK_TRANSPORT && sz < 32)
            sz %= 8; // 8 to 31 bytes: shown or not
        Bytes d = g.content(sz);
        if (t == 7)
            for (auto &x : d)
                x = (uint8_t)('!' + x % 90);
        if (t == 7 && g.flip() && sz)
            d.back() = 0;
        uint32_t part = (uint32_t)g.below(3);
        bool dup = false;
        for (auto &m : a.metas)
            dup |= m.id == TYPED[t].id && m.ref == part;
        if (!dup && a.meta_fits(sz))
            a.add_meta(TYPED[t].id, part, d);
    }
    a.update_hash();
    std::string dir = c.path("w");
    mkdir(dir.c_str(), 0700);
    write_file(dir + "/a.bpak", a.build());
    Res list = run(dir, {"show", "a.bpak"});
    CHECK(list.ok(), "show failed: %s", list.err.c_str());
    Res cmp = run(dir, {"compare", "a.bpak", "a.bpak"});
    CHECK(cmp.ok(), "compare failed: %s", cmp.err.c_str());
    std::vector<uint32_t> ids;
    for (size_t i = 0; i < a.metas.size(); i++) {
        auto &m = a.metas[i];
        std::string want;
        bool ok = text_of(m.id, m.data, want);
        if (!ok)
            want = "";
        std::string refcol = m.ref ? strf("%08x", m.ref) : "        ";
        std::string line = strf("    %08x   %-3zu    %-20s ", m.id, m.data.size(), bpak_id_to_string(m.id)) + refcol + "   " + want + "\n";
        CHECK(list.out.find(line) != std::string::npos, "show has no line '%s':\n%s", line.c_str(), list.out.c_str());
        std::string cl = strf("   %08x   %-3zu    %-20s %s\n", m.id, m.data.size(), bpak_id_to_string(m.id), want.c_str());
        if (want.size() < 64)
            CHECK(cmp.out.find("=" + cl) != std::string::npos, "compare has no line '=%s':\n%s", cl.c_str(), cmp.out.c_str());
        if (std::count(ids.begin(), ids.end(), m.id))
            continue;
        ids.push_back(m.id);
        Res one = run(dir, {"show", "a.bpak", "-m", strf("0x%x", m.id)});
        CHECK(one.ok() && one.out == (want.empty() ? "" : want + "\n"), "show -m 0x%x printed '%s' instead of '%s'", m.id, one.out.c_str(), want.c_str());
    }
    if (a.metas.size() >= 2)
        c.nontrivial();
}
static const std::vector<Prop> props = {
    {"C22", "names", ids, 300000, 2400000, "names and byte strings of up to thousands of bytes, checksummed whole and in pieces; non-trivial: the name is not empty"},
    {"C22", "builtin", builtin_ids, 10000, 80000, "built-in identifiers and names; all non-trivial"},
    {"C22", "trees", reverse, 150000, 1200000, "part tables with hash tree identifiers looked up; non-trivial: a part was found"},
    {"C22", "cli", cli_ids, 400, 6000, "names and hexadecimal identifiers on the command line; all non-trivial", 60},
    {"C23", "hex", hex, 240000, 1920000, "byte strings x buffer sizes; all non-trivial"},
    {"C23", "uuid", uuid, 80000, 640000, "UUIDs x buffer sizes; all non-trivial"},
    {"C23", "meta", meta_text, 400000, 3200000, "metadata entries (type, size, position, contents) x buffer sizes; non-trivial: the entry has a type that is shown"},
    {"C23", "show", shown, 500, 6000, "archives with typed, short and unterminated entries listed on the command line; non-trivial: at least two entries", 60},
};
PBT_MAIN(props)
