// C24 reading arbitrary and truncated files. PBT_NEEDS_CLI PBT_LIB(crypto)
#include "world.hh"
#include "hostgen.hh"
#include "cli.hh"
#include "ossl.hh"
extern "C" {
#include <bpak/verify.h>
#include <bpak/crypto.h>
#include <bpak/key.h>
#include <bpak/keystore.h>
#include <bpak/utils.h>
}
using namespace pbt;
using namespace model;
using namespace hostgen;
typedef unsigned __int128 u128;

// literal bytes, for coverage guided search: a list of (position, bytes) put over a valid archive
static Bytes overlay(Case &c, Gen &g)
{
    Arc a;
    Bytes d = g.content(4096);
    a.add_with_tree(ref::id("fs"), d, Bytes(32, 7), 0);
    a.add(ref::id("k"), slurp(keydir() + "p256a.pub.der"), 0);
    a.add_transport(ref::id("fs"), world::ENC[1], world::DEC[1]);
    a.add_meta(ID_PACKAGE, 0, Bytes(16, 1));
    a.add_meta(ID_KEYSTORE_PROVIDER, 0, Bytes(4, 2));
    a.update_hash();
    Bytes f = a.build();
    for (size_t k = (size_t)g.below(12); k; k--) {
        size_t at = (size_t)g.below(4096), n = (size_t)g.range(1, 16);
        c.log("at %zu:", at);
        for (size_t i = at; i < std::min<size_t>(4096, at + n); i++) {
            f[i] = (uint8_t)g.draw(256);
            c.log(" %02x", f[i]);
        }
        c.log("\n");
    }
    return f;
}

// ---------------------------------------------------------------- what the file holds
struct Range {
    u128 off, len;
    bool in(const Bytes &f) const { return off + len <= f.size(); }
};
static Range range_of(const ref::Header &h, size_t i)
{
    Range r{4096, 0};
    for (size_t k = 0; k < i; k++)
        r.off += h.parts[k].flags & 2 ? (u128)h.parts[k].tsize : (u128)h.parts[k].size + h.parts[k].pad;
    r.len = h.parts[i].flags & 2 ? h.parts[i].tsize : h.parts[i].size;
    return r;
}
// stored bytes of all included parts are in the file
static bool hashed_all_there(const ref::Header &h, const Bytes &f)
{
    for (size_t i = 0; i < h.parts.size(); i++) {
        Range r = range_of(h, i);
        if (!(h.parts[i].flags & 2))
            r.len += h.parts[i].pad;
        if (!(h.parts[i].flags & 1) && r.len && !r.in(f))
            return false;
    }
    return true;
}
struct Reader {
    const Bytes *f;
    bool short_read;
    std::string bad;
    uint64_t n = 0;
};
static ssize_t rd(off_t o, uint8_t *b, size_t n, void *u)
{
    Reader *r = (Reader *)u;
    r->n++;
    if ((ssize_t)n < 0 || n > (1u << 20))
        r->bad = strf("read of %zu bytes", n);
    memset(b, 0xd5, n);
    if (n == 0)
        return 0;
    if (o < 0 || (uint64_t)o > r->f->size() || n > r->f->size() - (uint64_t)o) {
        if (r->short_read && o >= 0 && (uint64_t)o < r->f->size()) {
            size_t m = r->f->size() - (size_t)o;
            memcpy(b, r->f->data() + o, std::min(n, m));
            return (ssize_t)std::min(n, m);
        }
        return -BPAK_READ_ERROR;
    }
    memcpy(b, r->f->data() + o, n);
    return (ssize_t)n;
}

// everything a reader can do with an opened archive
static void use(Case &c, const Bytes &f, const std::string &path, bpak_package *p, bool writable)
{
    Gen &g = c.g;
    ref::Header h = ref::parse(f);
    bpak_header *hd = bpak_pkg_header(p);
    CHECK(!memcmp(hd, f.data(), 4096), "the loaded header is not the stored one");
    // listing
    size_t np = 0;
    bpak_foreach_part (hd, q) {
        if (!q->id)
            continue;
        np++;
        (void)bpak_part_size(q);
        (void)bpak_part_size_wo_pad(q);
        (void)bpak_part_offset(hd, q);
    }
    (void)bpak_pkg_size(p);
    (void)bpak_pkg_installed_size(p);
    bpak_foreach_meta (hd, m) {
        if (!m->id)
            continue;
        size_t n = (size_t)g.pick<uint64_t>({64, 1, 5, 16, 37, 256, 2048});
        char *b = (char *)malloc(n);
        struct F { char *b; ~F() { free(b); } } fr{b};
        memset(b, 0x7f, n);
        int rc = bpak_meta_to_string(hd, m, b, n);
        if (rc == BPAK_OK)
            CHECK(memchr(b, 0, n), "metadata text is not terminated");
    }
    CHECK(!memcmp(hd, f.data(), 4096), "listing changed the loaded header");
    // payload hash by callback
    {
        Reader r{&f, g.flip(), ""};
        uint8_t out[64];
        size_t n = sizeof out;
        int rc = bpak_verify_compute_payload_hash(hd, rd, 4096, &r, out, &n);
        CHECK(r.bad.empty(), "computing the payload hash: %s", r.bad.c_str());
        if (rc == BPAK_OK) {
            CHECK(hashed_all_there(h, f), "payload hash of truncated data was computed");
            if (h.hash_kind >= 1 && h.hash_kind <= 3) {
                Bytes in;
                for (size_t i = 0; i < h.parts.size(); i++)
                    if (!(h.parts[i].flags & 1)) {
                        Range q = range_of(h, i);
                        if (!(h.parts[i].flags & 2))
                            q.len += h.parts[i].pad;
                        if (q.len)
                            in.insert(in.end(), f.begin() + (long)q.off, f.begin() + (long)(q.off + q.len));
                    }
                Bytes want = ref::hash(h.hash_kind, in);
                CHECK(n == want.size() && !memcmp(out, want.data(), n), "payload hash of the file is wrong");
            }
            c.label("hash computed");
        } else
            c.label("hash refused");
        Reader r2{&f, g.flip(), ""};
        rc = bpak_verify_payload(hd, rd, 4096, &r2);
        CHECK(r2.bad.empty(), "verifying the payload: %s", r2.bad.c_str());
        if (rc == BPAK_OK)
            CHECK(hashed_all_there(h, f), "truncated data was verified");
        c.label(rc == BPAK_OK ? "payload verified" : "payload refused");
    }
    CHECK(!memcmp(hd, f.data(), 4096), "verification changed the loaded header");
    // parts
    std::string out = c.path("out");
    for (size_t k = 0; k < std::min<size_t>(h.parts.size(), 6); k++) {
        size_t i = h.parts.size() <= 6 ? k : (size_t)g.below(h.parts.size());
        size_t first = 0;
        while (h.parts[first].id != h.parts[i].id)
            first++;
        Range r = range_of(h, first);
        int rc = bpak_pkg_extract_file(p, h.parts[i].id, out.c_str());
        if (rc == BPAK_OK) {
            Bytes got = slurp(out);
            CHECK(r.len == 0 || r.in(f), "part %zu is not in the file, but %zu bytes were extracted", i, got.size());
            CHECK(got.size() == r.len && (!r.len || !memcmp(got.data(), f.data() + (size_t)r.off, got.size())), "part %zu: other bytes extracted", i);
            c.label("extracted");
        }
        unlink(out.c_str());
        uint8_t dg[32];
        rc = bpak_pkg_part_sha256(p, dg, 32, h.parts[i].id);
        if (rc == BPAK_OK) {
            CHECK(r.len == 0 || r.in(f), "part %zu is not in the file, but was hashed", i);
            Bytes d;
            if (r.len)
                d.assign(f.begin() + (long)r.off, f.begin() + (long)(r.off + r.len));
            CHECK(ref::sha256(d) == Bytes(dg, dg + 32), "part %zu has another digest", i);
        }
    }
    if (g.flip()) {
        char dg[64];
        size_t n = sizeof dg;
        int rc = bpak_pkg_update_hash(p, dg, &n);
        if (rc == BPAK_OK)
            CHECK(hashed_all_there(h, f), "hash of truncated data was computed");
    }
    bpak_key *key = nullptr;
    if (bpak_crypto_load_public_key((keydir() + KEYS[g.below(4)] + ".pub.der").c_str(), &key) == BPAK_OK) {
        int rc = bpak_pkg_verify(p, key);
        free(key);
        CHECK(rc != BPAK_OK, "an archive that nobody signed was verified");
    }
    (void)path;
    (void)writable;
}
static void check_file(Case &c, const Bytes &f)
{
    Gen &g = c.g;
    std::string path = c.path("a.bpak");
    write_file(path, f);
    world::Pkg p;
    bool rw = g.flip();
    int rc = p.open_file(path, rw ? "rb+" : "rb");
    if (f.empty() && rw)
        return;
    if (f.size() < 4096 || rc != BPAK_OK) {
        CHECK(rc != BPAK_OK, "a file of %zu bytes was opened", f.size());
        c.label("refused");
    } else {
        c.label("opened");
        c.nontrivial();
        use(c, f, path, p.p, rw);
    }
    CHECK(p.close() == BPAK_OK, "closing failed");
    CHECK(slurp(path) == f, "reading changed the file: %s", diff_desc(slurp(path), f).c_str());
    // as a keystore
    if (f.size() >= 4096) {
        ref::Header h = ref::parse(f);
        uint32_t prov = 0, kid = h.parts.empty() ? 5 : h.parts[g.below(h.parts.size())].id;
        for (auto &m : h.metas)
            if (m.id == ID_KEYSTORE_PROVIDER && m.data.size() >= 4)
                prov = (uint32_t)ref::le(m.data, 0, 4);
        bpak_key *k = nullptr;
        rc = bpak_keystore_load_key_from_file(path.c_str(), prov, kid, nullptr, nullptr, &k);
        if (rc == BPAK_OK) {
            CHECK(k, "no key");
            size_t i = 0;
            while (i < h.parts.size() && h.parts[i].id != kid)
                i++;
            CHECK(i < h.parts.size(), "key that is not there was loaded");
            Range r = range_of(h, i);
            bool there = r.in(f);
            bool same = there && r.len >= k->size && !memcmp(k->data, f.data() + (size_t)r.off, k->size);
            free(k);
            CHECK(there, "a truncated key was loaded");
            CHECK(same, "other key bytes were loaded");
            c.label("key loaded");
        }
    }
    CHECK(slurp(path) == f, "reading changed the file");
}
static void lib(Case &c)
{
    check_file(c, hostile(c, c.g));
}
static void bytes(Case &c)
{
    check_file(c, overlay(c, c.g));
}

// ---------------------------------------------------------------- valid archives, cut
static void truncated(Case &c)
{
    Gen &g = c.g;
    arcgen::Opt o;
    o.max_parts = 6;
    o.tree_pct = 30;
    Arc a = arcgen::make(g, o);
    Bytes f = a.build();
    ref::Header h = ref::parse(f);
    size_t cut = f.size();
    if (!h.parts.empty() && g.chance(60)) { // around a boundary
        Range r = range_of(h, g.below(h.parts.size()));
        int64_t v = (int64_t)(r.off + (g.flip() ? r.len : 0)) + (int64_t)g.below(5) - 2;
        cut = (size_t)std::min<int64_t>((int64_t)f.size(), std::max<int64_t>(4096, v));
    } else if (g.chance(95))
        cut = (size_t)g.range(4096, f.size());
    Bytes full = f;
    f.resize(cut);
    arcgen::describe(c, a);
    c.log("cut to %zu of %zu bytes\n", cut, full.size());
    std::string path = c.path("a.bpak"), out = c.path("out");
    write_file(path, f);
    world::Pkg p;
    CHECK(p.open_file(path, g.flip() ? "rb" : "rb+") == BPAK_OK, "archive refused");
    for (size_t i = 0; i < h.parts.size(); i++) {
        Range r = range_of(h, i);
        bool there = r.in(f);
        int rc = bpak_pkg_extract_file(p.p, h.parts[i].id, out.c_str());
        if (r.len || there)
            CHECK((rc == BPAK_OK) == there, "part %zu %s, extraction: %d", i, there ? "is there" : "is not complete", rc);
        if (rc == BPAK_OK) {
            Bytes got = slurp(out);
            CHECK(got.size() == r.len && (!r.len || !memcmp(got.data(), f.data() + (size_t)r.off, got.size())), "part %zu: other bytes extracted", i);
        }
        uint8_t dg[32];
        rc = bpak_pkg_part_sha256(p.p, dg, 32, h.parts[i].id);
        if (r.len || there)
            CHECK((rc == BPAK_OK) == there, "part %zu %s, digest: %d", i, there ? "is there" : "is not complete", rc);
    }
    bool hashed = hashed_all_there(h, f), tree_ok = true, either = false;
    for (auto &m : h.metas)
        if (m.id == ID_ROOT)
            for (size_t i = 0; i < h.parts.size(); i++)
                if (h.parts[i].id == m.ref || h.parts[i].id == ref::tree_id(m.ref)) {
                    Range r = range_of(h, i);
                    r.len += h.parts[i].pad;
                    if (h.parts[i].id != m.ref && !r.in(f)) // only a digest of the tree of one block is used
                        for (auto &d : h.parts)
                            if (d.id == m.ref && d.size + d.pad == 4096 && r.off + 32 <= f.size()) {
                                either = true;
                                r.len = 0;
                                break;
                            }
                    tree_ok &= r.in(f);
                }
    Reader r{&f, g.flip(), ""};
    int rc = bpak_verify_payload(bpak_pkg_header(p.p), rd, 4096, &r);
    if (!hashed || !tree_ok)
        CHECK(rc != BPAK_OK, "truncated payload was verified");
    else if (!either)
        CHECK(rc == BPAK_OK, "intact payload was refused (%d)", rc);
    char dg[64];
    size_t n = sizeof dg;
    rc = bpak_pkg_update_hash(p.p, dg, &n);
    CHECK((rc == BPAK_OK) == hashed, "hash of %s payload: %d", hashed ? "complete" : "truncated", rc);
    CHECK(p.close() == BPAK_OK, "closing failed");
    CHECK(slurp(path) == f, "reading changed the file");
    if (g.chance(20) && !h.parts.empty()) { // the same through the command line
        size_t i = (size_t)g.below(h.parts.size());
        Range q = range_of(h, i);
        unlink(out.c_str());
        cli::Res x = cli::run(c.scratch, {"extract", "a.bpak", "-p", strf("0x%x", h.parts[i].id), "-o", "out"});
        if (q.len || q.in(f))
            CHECK(x.ok() == q.in(f), "part %zu %s, exit status %d", i, q.in(f) ? "is there" : "is not complete", x.status);
        x = cli::run(c.scratch, {"verify", "a.bpak", "-k", keydir() + "p256a.pub.pem"});
        CHECK(!x.ok(), "unsigned archive verified");
        CHECK(slurp(path) == f, "reading changed the file");
        c.label("command line");
    }
    if (!hashed || !tree_ok)
        c.nontrivial();
    c.label(cut == full.size() ? "complete" : !hashed ? "hashed data missing" : !tree_ok ? "tree data missing" : "nothing needed missing");
}

// ---------------------------------------------------------------- command line on hostile files
static void cmdline(Case &c)
{
    Gen &g = c.g;
    Bytes f = hostile(c, g);
    arcgen::Opt o;
    o.max_size = 2000;
    o.max_blocks = 1;
    Bytes good = arcgen::make(g, o).build();
    write_file(c.path("a.bpak"), f);
    write_file(c.path("good.bpak"), good);
    auto valid = [&]() { return f.size() >= 4096; };
    std::vector<uint32_t> ids = {5};
    std::vector<uint32_t> mids = {ID_SALT};
    bool keystore = false;
    if (f.size() >= 4096) {
        ref::Header h = ref::parse(f);
        for (auto &p : h.parts)
            ids.push_back(p.id);
        for (auto &m : h.metas) {
            mids.push_back(m.id);
            keystore |= m.id == ID_KEYSTORE_PROVIDER;
        }
    }
    for (size_t k = (size_t)g.range(1, 4); k; k--) {
        cli::Argv a;
        switch (keystore && g.chance(40) ? 9 : g.below(10)) {
        case 0: a = {"show", "a.bpak"}; break;
        case 1: a = {"show", "a.bpak", "-H"}; break;
        case 2: a = {"show", "a.bpak", "-p", strf("0x%x", g.pick(ids))}; break;
        case 3: a = {"show", "a.bpak", "-m", strf("0x%x", g.pick(mids))}; break;
        case 4: a = {"verify", "a.bpak", "-k", keydir() + KEYS[g.below(4)] + ".pub.der"}; break;
        case 5: a = {"extract", "a.bpak", "-p", strf("0x%x", g.pick(ids)), "-o", "out"}; break;
        case 6: a = {"extract", "a.bpak", "-m", strf("0x%x", g.pick(mids)), "-o", "out"}; break;
        case 7: a = g.flip() ? cli::Argv{"compare", "a.bpak", "good.bpak"} : cli::Argv{"compare", "good.bpak", "a.bpak"}; break;
        case 8: a = {"compare", "a.bpak", "a.bpak"}; break;
        default: a = {"generate", "keystore", "a.bpak", "--name", "x"};
        }
        if (g.chance(30))
            a.push_back("-vvv");
        cli::Res r = cli::run(c.scratch, a);
        CHECK(slurp(c.path("a.bpak")) == f, "'bpak %s' changed the file", cli::join(a).c_str());
        CHECK(slurp(c.path("good.bpak")) == good, "'bpak %s' changed the other file", cli::join(a).c_str());
        if (!valid())
            CHECK(!r.ok(), "'bpak %s' succeeded on a file of %zu bytes", cli::join(a).c_str(), f.size());
        else if (r.ok())
            c.nontrivial();
        if (a[0] == "verify")
            CHECK(!r.ok(), "an archive that nobody signed was verified");
        c.label(a[0] + (r.ok() ? " ok" : " refused"));
        if (r.ok() && a[0] == "extract" && a[2] == "-p" && valid()) {
            ref::Header h = ref::parse(f);
            uint32_t id = (uint32_t)strtoul(a[3].c_str(), nullptr, 16);
            for (size_t i = 0; i < h.parts.size(); i++)
                if (h.parts[i].id == id) {
                    Range q = range_of(h, i);
                    Bytes got = slurp(c.path("out"));
                    CHECK(q.len == 0 || q.in(f), "part %zu is not in the file, but %zu bytes were extracted", i, got.size());
                    CHECK(got.size() == q.len && (!q.len || !memcmp(got.data(), f.data() + (size_t)q.off, got.size())), "part %zu: other bytes extracted", i);
                    break;
                }
        }
        unlink(c.path("out").c_str());
    }
}

// ---------------------------------------------------------------- hostile archives as input or origin of coding
static void encode(Case &c)
{
    Gen &g = c.g;
    world::World w = world::make_world(c, g);
    Bytes in = w.in.build(), org = w.org.build();
    unsigned which = (unsigned)g.below(3);
    if (which != 1)
        mutate(c, g, in);
    if (which != 0)
        mutate(c, g, org);
    std::string pi = c.path("in.bpak"), po = c.path("org.bpak"), pe = c.path("enc.bpak");
    write_file(pi, in);
    write_file(po, org);
    bool done = false;
    if (g.chance(25)) {
        cli::Res r = cli::run(c.scratch, {"transport", "in.bpak", g.flip() ? "-E" : "-D", "-O", "org.bpak", "-o", "enc.bpak"});
        done = r.ok();
    } else {
        world::Pkg i, o, e;
        if (i.open_file(pi, "rb") == BPAK_OK && o.open_file(po, "rb") == BPAK_OK && e.open_file(pe, "wb+") == BPAK_OK) {
            bool enc = g.chance(70);
            int rc = enc ? bpak_pkg_transport_encode(i.p, e.p, g.chance(90) ? o.p : nullptr) : bpak_pkg_transport_decode(i.p, e.p, g.chance(90) ? o.p : nullptr);
            done = rc == BPAK_OK && e.close() == BPAK_OK;
            c.nontrivial();
            if (done && enc) { // nothing can have been encoded that is not there
                ref::Header h = ref::parse(in);
                for (size_t k = 0; k < h.parts.size(); k++) {
                    size_t first = 0; // identifiers may occur twice
                    while (h.parts[first].id != h.parts[k].id)
                        first++;
                    Range r = range_of(h, first);
                    bool removed = false;
                    for (auto &m : h.metas)
                        if (m.id == ID_TRANSPORT && m.ref == h.parts[k].id && m.data.size() >= 4 && ref::le(m.data, 0, 4) == world::REMOVE)
                            removed = true;
                    if (!removed && r.len)
                        CHECK(r.in(in), "part %zu of the input is not complete, but the archive was encoded", k);
                }
            }
        }
    }
    CHECK(slurp(pi) == in, "coding changed the input");
    CHECK(slurp(po) == org, "coding changed the origin");
    c.label(done ? "done" : "refused");
}

static const std::vector<Prop> props = {
    {"C24", "lib", lib, 100000, 3000000,
     "archives (plain, tree protected, transport coded, keystores, full tables) with 1-6 changed fields, cut or extended, arbitrary headers and files; opened, listed, "
     "hashed, verified, extracted and used as keystore; results compared with what the file holds; non-trivial: the file was opened", 60},
    {"C24", "bytes", bytes, 30000, 1000000, "a tree protected and coded archive with up to 12 arbitrary byte strings written over its header; non-trivial: the file was opened", 60},
    {"C24", "truncated", truncated, 12000, 200000,
     "valid archives cut at any position; every read succeeds exactly when its data is complete; non-trivial: needed data is missing", 60},
    {"C24", "cmdline", cmdline, 8000, 50000, "1-4 reading commands on hostile files; non-trivial: a command succeeded", 120},
    {"C24", "encode", encode, 8000, 150000, "hostile archives as input or origin of transport coding; non-trivial: coding was attempted", 60},
};
PBT_MAIN(props)
