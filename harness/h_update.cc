// C40: what a device installs by the documented update procedure.   PBT_NEEDS_CLI PBT_LIB(crypto)
#include "stream.hh"
#include "cli.hh"
#include "ossl.hh"
extern "C" {
#include <bpak/bpak.h>
#include <bpak/crypto.h>
#include <bpak/key.h>
#include <bpak/keystore.h>
}
using namespace pbt;
using namespace model;
using namespace world;
using namespace stream;

static const uint32_t ID_PROVIDER = ref::id("keystore-provider-id");
struct KeyInfo {
    const char *file;
    uint8_t sig_kind;
    const char *sig_name;
};
static const KeyInfo KEYS[] = {{"p256a", 2, "prime256v1"}, {"p256b", 2, "prime256v1"}, {"p384a", 3, "secp384r1"}, {"p521a", 4, "secp521r1"}, {"rsaa", 1, "rsa4096"}};
static const KeyInfo EVIL = {"p384b", 3, "secp384r1"};
static const char *HK[] = {"", "sha256", "sha384", "sha512"};

// how the product is put together; the contents change from release to release
struct Item {
    std::string name;
    bool tree, excluded;
    int coding, tcoding; // -1 plain, 0..2 delta, 3 regenerated (trees)
    uint32_t id() const { return ref::id(name); }
};
struct Named {
    std::string name; // in the keystore
    KeyInfo k;
};
struct Vendor {
    Bytes uuid;
    std::string uuid_text;
    std::vector<Item> items;
    std::vector<Named> keys;
    std::string provider; // name of the keystore
    KeyInfo root;
    std::vector<Bytes> releases;
    std::vector<std::vector<Bytes>> content; // per release, per item
};

static void resign(Bytes &f, const KeyInfo &k)
{
    Bytes s = ossl::sign(k.file, f[ref::H_HASHKIND], ref::header_digest(f));
    std::fill(f.begin() + ref::H_SIG, f.begin() + 4096, 0);
    std::copy(s.begin(), s.end(), f.begin() + ref::H_SIG);
    put(f, ref::H_SIGSZ, 2, s.size());
}
static void set_payload_hash(Bytes &f)
{
    Bytes h = ref::payload_hash(f);
    std::fill(f.begin() + ref::H_PHASH, f.begin() + ref::H_PHASH + 64, 0);
    std::copy(h.begin(), h.end(), f.begin() + ref::H_PHASH);
}
static Bytes keystore_of(const std::vector<Named> &keys, const std::string &provider, const KeyInfo &root, unsigned hash_kind)
{
    Arc a;
    a.hash_kind = (uint8_t)hash_kind;
    a.sig_kind = root.sig_kind;
    static const uint8_t U[16] = {0x5d, 0xf1, 0x03, 0xef, 0xe7, 0x74, 0x45, 0x0b, 0x95, 0xc5, 0x1f, 0xef, 0x51, 0xce, 0xec, 0x28};
    a.add_meta(ID_PACKAGE, 0, Bytes(U, U + 16));
    Bytes id(4);
    put(id, 0, 4, ref::id(provider));
    a.add_meta(ID_PROVIDER, 0, id);
    for (auto &k : keys)
        a.add(ref::id(k.name), slurp(keydir() + k.k.file + ".pub.der"), 0);
    a.update_hash();
    Bytes f = a.build();
    resign(f, root);
    return f;
}

// the release is put together by the tool, as the user guide shows
static void cli_ok(const std::string &dir, const cli::Argv &av)
{
    cli::Res r = cli::run(dir, av);
    CHECK(r.ok(), "'bpak %s' failed with status %d: %s", cli::join(av).c_str(), r.status, r.err.c_str());
}
static Bytes release_by_tool(Case &c, Gen &g, const Vendor &v, const std::vector<Bytes> &content, const Named &key, unsigned hash_kind)
{
    std::string d = c.path("vendor");
    mkdir(d.c_str(), 0700);
    unlink((d + "/r.bpak").c_str());
    cli_ok(d, {"create", "r.bpak", "-Y", "--hash-kind", HK[hash_kind], "--signature-kind", key.k.sig_name});
    cli_ok(d, {"add", "r.bpak", "--meta", "bpak-package", "--from-string", v.uuid_text, "--encoder", "uuid"});
    for (size_t i = 0; i < v.items.size(); i++) {
        CHECK(write_file(d + "/data", content[i]), "harness: write");
        cli::Argv av{"add", "r.bpak", "--part", v.items[i].name, "--from-file", "data"};
        if (v.items[i].excluded) {
            av.push_back("--set-flag");
            av.push_back("dont-hash");
        }
        if (v.items[i].tree) {
            av.push_back("--encoder");
            av.push_back("merkle");
        }
        cli_ok(d, av);
    }
    static const char *E[] = {"bsdiff-no-comp", "bsdiff", "bsdiff-lzma", "remove-data"}, *D[] = {"bspatch-no-comp", "bspatch", "bspatch-lzma", "merkle-generate"};
    for (auto &it : v.items) {
        if (it.coding >= 0)
            cli_ok(d, {"transport", "r.bpak", "--add", "--part", it.name, "--encoder", E[it.coding], "--decoder", D[it.coding]});
        if (it.tree && it.tcoding >= 0)
            cli_ok(d, {"transport", "r.bpak", "--add", "--part", it.name + "-hash-tree", "--encoder", E[it.tcoding], "--decoder", D[it.tcoding]});
    }
    cli_ok(d, {"set", "r.bpak", "--key-id", key.name, "--keystore-id", v.provider});
    cli_ok(d, {"sign", "r.bpak", "--key", keydir() + key.k.file + (g.flip() ? ".key.pem" : ".key.der")});
    return slurp(d + "/r.bpak");
}
static Bytes release_by_model(Gen &g, const Vendor &v, const std::vector<Bytes> &content, const Named &key, unsigned hash_kind)
{
    Arc a;
    a.hash_kind = (uint8_t)hash_kind;
    a.sig_kind = key.k.sig_kind;
    a.key_id = ref::id(key.name);
    a.ks_id = ref::id(v.provider);
    a.add_meta(ID_PACKAGE, 0, v.uuid);
    if (g.flip())
        a.add_meta(ref::id("bpak-version"), 0, g.content((size_t)g.range(1, 12)));
    for (size_t i = 0; i < v.items.size(); i++) {
        const Item &it = v.items[i];
        if (it.tree)
            a.add_with_tree(it.id(), content[i], g.content(32), it.excluded ? 1 : 0);
        else
            a.add(it.id(), content[i], it.excluded ? 1 : 0);
    }
    for (auto &it : v.items) {
        if (it.coding >= 0)
            a.add_transport(it.id(), ENC[it.coding], DEC[it.coding]);
        if (it.tree && it.tcoding == 3)
            a.add_transport(ref::tree_id(it.id()), REMOVE, MERKLE_GEN);
        else if (it.tree && it.tcoding >= 0)
            a.add_transport(ref::tree_id(it.id()), ENC[it.tcoding], DEC[it.tcoding]);
    }
    a.update_hash();
    Bytes f = a.build();
    resign(f, key.k);
    return f;
}

// ---- the device
struct Device {
    Bytes uuid;
    KeyInfo root;
    Bytes installed;
};
struct Verdict {
    bool accepted = false;
    Bytes image;
    std::string why;
};
static int root_check(bpak_header *h, void *u)
{
    static const uint8_t U[16] = {0x5d, 0xf1, 0x03, 0xef, 0xe7, 0x74, 0x45, 0x0b, 0x95, 0xc5, 0x1f, 0xef, 0x51, 0xce, 0xec, 0x28};
    (*(int *)u)++;
    bpak_meta_header *m = nullptr;
    if (bpak_get_meta(h, BPAK_ID_BPAK_PACKAGE, 0, &m) != BPAK_OK || m->size != 16)
        return -BPAK_FAILED;
    return memcmp(bpak_get_meta_ptr(h, m, uint8_t), U, 16) ? -BPAK_FAILED : BPAK_OK;
}
struct Key {
    bpak_key *k = nullptr;
    ~Key() { free(k); }
};
static bool verify_file(Case &c, const std::string &f, bpak_key *key, std::string &why)
{
    (void)c;
    Pkg p;
    int rc = p.open_file(f, "rb");
    if (!rc)
        rc = bpak_pkg_verify(p.p, key);
    if (rc)
        why = strf("verification of %s: %d (%s)", f.substr(f.rfind('/') + 1).c_str(), rc, bpak_error_string(rc));
    return rc == BPAK_OK;
}
// how: 0 file interface, 1 stream, 2 tool
static Verdict update(Case &c, Gen &g, Device &d, const Bytes &ks, const Bytes &in, int how, int vhow)
{
    Verdict r;
    std::string dir = c.path("device");
    mkdir(dir.c_str(), 0700);
    std::string kf = dir + "/ks.bpak", inf = dir + "/in.bpak", orgf = dir + "/installed.bpak", outf = dir + "/out.bpak";
    if (!write_file(kf, ks) || !write_file(inf, in) || !write_file(orgf, d.installed))
        FAILF("harness: write");
    unlink(outf.c_str());
    // 1. the keystore is one, and signed by the root key
    {
        Key root;
        int rc = bpak_crypto_load_public_key((keydir() + d.root.file + ".pub.der").c_str(), &root.k);
        CHECK(rc == BPAK_OK, "cannot load the root key: %d", rc);
        if (!verify_file(c, kf, root.k, r.why))
            return r;
    }
    // 2. decode
    if (how == 2) {
        cli::Res x = cli::run(dir, {"transport", "in.bpak", "--decode", "--origin", "installed.bpak", "--output", "out.bpak"});
        if (!x.ok()) {
            r.why = "decode: " + x.err;
            return r;
        }
    } else if (how == 1) {
        bpak_header h;
        if (in.size() < sizeof h) {
            r.why = "short";
            return r;
        }
        memcpy(&h, in.data(), sizeof h);
        int rc = bpak_valid_header(&h);
        if (!rc) {
            Stream s;
            Gen *cut = &g;
            rc = stream_decode(in, &d.installed, s, 2 * (size_t)g.range(32, 2048), cut, false);
            CHECK(s.bad.empty(), "%s", s.bad.c_str());
            if (!rc) {
                Bytes out = s.hdr;
                out.insert(out.end(), s.out.begin(), s.out.end());
                if (!write_file(outf, out))
                    FAILF("harness: write");
            }
        }
        if (rc) {
            r.why = strf("stream: %d", rc);
            return r;
        }
    } else {
        Pkg i, o, org;
        int rc = i.open_file(inf, "rb");
        if (!rc)
            rc = org.open_file(orgf, "rb");
        if (!rc)
            rc = o.open_file(outf, "wb+");
        if (!rc)
            rc = bpak_pkg_transport_decode(i.p, o.p, org.p);
        int cr = o.close();
        if (rc || cr) {
            r.why = strf("decode: %d", rc ? rc : cr);
            return r;
        }
    }
    // 3. verify what was decoded with the key that it names, from the keystore
    if (vhow == 2) {
        cli::Res x = cli::run(dir, {"verify", "out.bpak", "--keystore", "ks.bpak"});
        if (!x.ok()) {
            r.why = "verify: " + x.err;
            return r;
        }
    } else {
        Pkg p;
        int rc = p.open_file(outf, "rb"), called = 0;
        Key key;
        if (!rc)
            rc = bpak_keystore_load_key_from_file(kf.c_str(), p.p->header.keystore_id, p.p->header.key_id, root_check, &called, &key.k);
        if (!rc)
            CHECK(called == 1, "the header of the keystore was checked %d times", called);
        if (!rc)
            rc = bpak_pkg_verify(p.p, key.k);
        if (rc) {
            r.why = strf("verify: %d (%s)", rc, bpak_error_string(rc));
            return r;
        }
    }
    // 4. it is for this product
    {
        Pkg p;
        bpak_meta_header *m = nullptr;
        CHECK(p.open_file(outf, "rb") == BPAK_OK, "a verified archive cannot be opened");
        if (bpak_get_meta(&p.p->header, BPAK_ID_BPAK_PACKAGE, 0, &m) != BPAK_OK || m->size != 16 ||
            memcmp(bpak_get_meta_ptr(&p.p->header, m, uint8_t), d.uuid.data(), 16)) {
            r.why = "another product";
            return r;
        }
    }
    r.accepted = true;
    r.image = slurp(outf);
    CHECK(slurp(orgf) == d.installed, "the installed archive was changed by an update");
    CHECK(slurp(inf) == in && slurp(kf) == ks, "the delivered files were changed by an update");
    return r;
}
// is everything that the signature of the release stands for the same in the image
static bool same_release(const Bytes &img, const Bytes &rel, std::string &what)
{
    if (img.size() < 4096 || !std::equal(img.begin(), img.begin() + ref::H_SIG, rel.begin())) {
        what = "header";
        return false;
    }
    ref::Header h = ref::parse(rel);
    uint64_t off = 4096;
    std::map<uint32_t, uint64_t> prot;
    for (auto &m : h.metas)
        if (m.id == ID_ROOT) {
            prot[m.ref] = prot[ref::tree_id(m.ref)] = (uint64_t)-1;
            for (auto &p : h.parts) // one block: the root is its hash, the definition has no tree
                if (p.id == m.ref && p.size <= 4096)
                    prot[ref::tree_id(m.ref)] = 32;
        }
    for (auto &p : h.parts) {
        uint64_t n = p.size + p.pad;
        if (!(p.flags & 1) || prot.count(p.id)) {
            uint64_t k = p.flags & 1 ? std::min(n, prot[p.id]) : n;
            if (off + k > img.size() || !std::equal(img.begin() + (long)off, img.begin() + (long)(off + k), rel.begin() + (long)off)) {
                what = strf("data of part 0x%08x", p.id);
                return false;
            }
        }
        off += n;
    }
    return true;
}

// ---- what can happen on the way
static void flips(Case &c, Gen &g, Bytes &f, size_t lo, size_t hi)
{
    if (lo >= hi)
        return;
    for (size_t n = (size_t)g.range(1, 3); n; n--) {
        size_t p = lo + g.below(hi - lo);
        uint8_t m = (uint8_t)(g.flip() ? 1u << g.below(8) : g.range(1, 255));
        f[p] ^= m;
        c.log("  byte %zu ^ 0x%02x\n", p, m);
    }
}
static size_t part_offset(const ref::Header &h, size_t i)
{
    size_t o = 4096;
    for (size_t k = 0; k < i; k++)
        o += (size_t)h.parts[k].stored();
    return o;
}
// damage of one archive; others: archives of the same product
static void tamper(Case &c, Gen &g, Bytes &f, const std::vector<Bytes> &others, const Vendor &v)
{
    ref::Header h = ref::parse(f);
    switch (g.below(14)) {
    case 0:
        c.log(" header bytes\n");
        flips(c, g, f, 0, ref::H_SIG);
        break;
    case 1:
        c.log(" payload bytes\n");
        flips(c, g, f, 4096, f.size());
        break;
    case 2:
        c.log(" signature bytes\n");
        flips(c, g, f, ref::H_SIG, 4096);
        break;
    case 3:
        c.log(" cut off\n");
        f.resize(4096 + (f.size() > 4096 ? g.below(f.size() - 4096) : 0));
        break;
    case 4: {
        const Bytes &o = others[g.below(others.size())];
        c.log(" header of another archive of the product\n");
        std::copy(o.begin(), o.begin() + 4096, f.begin());
        break;
    }
    case 5: {
        const Bytes &o = others[g.below(others.size())];
        c.log(" payload of another archive of the product\n");
        f.resize(4096);
        f.insert(f.end(), o.begin() + 4096, o.end());
        break;
    }
    case 6: {
        const Bytes &o = others[g.below(others.size())];
        ref::Header ho = ref::parse(o);
        c.log(" part data of another archive of the product\n");
        for (size_t i = 0; i < h.parts.size(); i++)
            if (i < ho.parts.size() && g.flip()) {
                size_t a = part_offset(h, i), b = part_offset(ho, i), n = (size_t)std::min(h.parts[i].stored(), ho.parts[i].stored());
                if (a + n <= f.size() && b + n <= o.size())
                    std::copy(o.begin() + (long)b, o.begin() + (long)(b + n), f.begin() + (long)a);
            }
        break;
    }
    case 7:
        c.log(" payload bytes, payload hash made anew\n");
        flips(c, g, f, 4096, f.size());
        set_payload_hash(f);
        break;
    case 8:
        c.log(" payload bytes, payload hash and signature of an unknown key\n");
        flips(c, g, f, 4096, f.size());
        set_payload_hash(f);
        resign(f, EVIL);
        break;
    case 9: {
        c.log(" another key id or keystore id\n");
        put(f, g.flip() ? ref::H_KEYID : ref::H_KSID, 4, g.flip() ? ref::id(v.keys[g.below(v.keys.size())].name) : (uint32_t)g.draw(1ull << 32));
        if (g.flip())
            resign(f, EVIL);
        break;
    }
    case 10: { // a part is left out of the hash, or taken in
        if (h.parts.empty())
            break;
        size_t i = g.below(h.parts.size());
        c.log(" flags of part %zu\n", i);
        f[ref::H_PARTS + 32 * i + 30] ^= (uint8_t)(1u << g.below(3));
        if (g.flip())
            flips(c, g, f, part_offset(h, i), std::min<size_t>(f.size(), part_offset(h, i) + (size_t)h.parts[i].stored()));
        if (g.flip())
            set_payload_hash(f);
        break;
    }
    case 11:
        c.log(" signature removed\n");
        std::fill(f.begin() + ref::H_SIG, f.begin() + 4096, 0);
        break;
    case 12: { // tree or salt or root exchanged
        c.log(" metadata exchanged\n");
        const Bytes &o = others[g.below(others.size())];
        std::copy(o.begin() + ref::H_META, o.begin() + ref::H_META + 512, f.begin() + ref::H_META);
        std::copy(o.begin() + ref::H_DATA, o.begin() + ref::H_DATA + 1920, f.begin() + ref::H_DATA);
        break;
    }
    default: {
        c.log(" bytes behind the end\n");
        Bytes x = g.content((size_t)g.range(1, 700));
        f.insert(f.end(), x.begin(), x.end());
        break;
    }
    }
}

static void life(Case &c)
{
    Gen &g = c.g;
    Vendor v;
    v.uuid = uuid(g);
    {
        std::string t;
        for (size_t i = 0; i < 16; i++)
            t += strf("%02x%s", v.uuid[i], i == 3 || i == 5 || i == 7 || i == 9 ? "-" : "");
        v.uuid_text = t;
    }
    bool tool = g.chance(25);
    auto pick = [&]() { return KEYS[g.weighted({10, 7, 2, 1, tool ? 0u : 2u})]; };
    v.root = pick();
    v.provider = g.pick({"demo-key-store", "ks", "internal"});
    size_t nk = (size_t)g.range(1, 3);
    for (size_t i = 0; i < nk; i++)
        v.keys.push_back({strf("key-%zu", i + 1), pick()});
    static const char *NM[] = {"fs", "kernel", "boot", "data"};
    size_t ni = (size_t)g.range(1, 4);
    for (size_t i = 0; i < ni; i++) {
        Item it;
        it.name = NM[i];
        it.tree = g.chance(40);
        it.excluded = g.chance(it.tree ? 60 : 15);
        it.coding = g.chance(60) ? delta::pick_comp(g) : -1;
        it.tcoding = g.chance(60) ? 3 : g.chance(40) ? delta::pick_comp(g) : -1;
        v.items.push_back(it);
        c.log("part %s:%s%s coding %d, of the tree %d\n", it.name.c_str(), it.tree ? " tree" : "", it.excluded ? " not hashed" : "", it.coding, it.tree ? it.tcoding : -1);
    }
    unsigned hash_kind = (unsigned)g.range(1, 3);
    Bytes ks = keystore_of(v.keys, v.provider, v.root, (unsigned)g.range(1, 3));
    Bytes evil_ks = keystore_of({{v.keys[0].name, EVIL}}, v.provider, EVIL, 1);
    size_t mx = c.thorough ? 20000 : 5000;
    auto publish = [&]() {
        std::vector<Bytes> ct;
        for (size_t i = 0; i < v.items.size(); i++) {
            size_t m = v.items[i].tree ? 4096 * (c.thorough ? 10 : 4) : mx;
            Bytes t;
            if (v.content.empty() || g.chance(15))
                t = g.content((size_t)g.edge_size(m));
            else
                t = g.chance(15) ? v.content.back()[i] : delta::edit(c, g, v.content.back()[i], m, false);
            if (v.items[i].tree)
                t.resize(std::max<size_t>(1, (t.size() + 2048) / 4096) * 4096, 0);
            ct.push_back(t);
        }
        if (g.chance(15))
            hash_kind = (unsigned)g.range(1, 3);
        const Named &k = v.keys[g.below(v.keys.size())];
        c.log("release %zu: %s, key %s (%s)%s;", v.releases.size() + 1, HK[hash_kind], k.name.c_str(), k.k.file, tool ? ", by the tool" : "");
        Bytes f = tool ? release_by_tool(c, g, v, ct, k, hash_kind) : release_by_model(g, v, ct, k, hash_kind);
        for (auto &x : ct)
            c.log(" %zu", x.size());
        c.log(" bytes\n");
        v.content.push_back(ct);
        v.releases.push_back(f);
    };
    publish();
    Device d{v.uuid, v.root, v.releases[0]};
    size_t at = 0; // installed release
    size_t steps = (size_t)g.range(1, 3);
    for (size_t s = 0; s < steps; s++) {
        publish();
        size_t n = v.releases.size() - 1;
        // transport archive for this device, by the library or the tool
        std::string inf = c.path("rel.bpak"), orgf = c.path("org.bpak"), outf = c.path("tr.bpak");
        if (!write_file(inf, v.releases[n]) || !write_file(orgf, v.releases[at]))
            FAILF("harness: write");
        unlink(outf.c_str());
        Bytes tr;
        bool coded = g.chance(85);
        if (!coded)
            tr = v.releases[n];
        else {
            if (tool && g.flip())
                cli_ok(c.scratch, {"transport", "rel.bpak", "--encode", "--origin", "org.bpak", "--output", "tr.bpak"});
            else {
                int rc = file_code(true, inf, outf, orgf);
                CHECK(rc == BPAK_OK, "release %zu cannot be encoded against release %zu: %d", n + 1, at + 1, rc);
            }
            tr = slurp(outf);
        }
        std::vector<Bytes> others = v.releases;
        others.push_back(ks);
        std::vector<std::string> done;
        for (int tries = (int)g.below(3); tries >= 0; tries--) {
            bool honest = tries == 0 && g.chance(75);
            Bytes t = tr, k = ks, keep = d.installed;
            bool enc = coded;
            if (!honest) {
                int what = (int)g.weighted({6, 1, 2, 1});
                c.log("step %zu, on the way:%s\n", s + 1, what == 0 ? " transport archive" : what == 1 ? " keystore" : what == 2 ? " installed archive" : " transport archive and keystore of somebody else");
                if (what == 0) {
                    if (g.chance(25)) { // not coded at all
                        t = v.releases[g.below(v.releases.size())];
                        enc = false;
                    }
                    others.push_back(tr);
                    tamper(c, g, t, others, v);
                    others.pop_back();
                } else if (what == 1) {
                    if (g.chance(50)) { // the key is exchanged
                        ref::Header h = ref::parse(k);
                        Bytes e = slurp(keydir() + EVIL.file + ".pub.der");
                        for (size_t i = 0; i < h.parts.size(); i++)
                            if (e.size() <= h.parts[i].stored())
                                std::copy(e.begin(), e.end(), k.begin() + (long)part_offset(h, i));
                        if (g.flip())
                            set_payload_hash(k);
                        resign(t, EVIL);
                    } else
                        tamper(c, g, k, others, v);
                } else if (what == 2) {
                    if (g.flip())
                        flips(c, g, d.installed, 4096, d.installed.size());
                    else
                        flips(c, g, d.installed, ref::H_DATA, ref::H_DATA + 64);
                } else {
                    k = evil_ks;
                    put(t, ref::H_KEYID, 4, ref::id(v.keys[0].name));
                    resign(t, EVIL);
                }
            }
            int how = (int)g.weighted({4, 5, tool ? 4u : 1u}), vhow = (int)g.weighted({5, 0, tool ? 4u : 1u});
            Verdict r = update(c, g, d, k, t, how, vhow);
            const char *H[] = {"file", "stream", "tool"};
            c.log("step %zu: %s, %s: %s%s\n", s + 1, honest ? "as published" : "tampered with", H[how], r.accepted ? "accepted" : "refused, ", r.why.c_str());
            (void)enc;
            if (honest) {
                c.label(coded ? "published, coded" : "published, not coded");
                CHECK(r.accepted, "a published update was refused: %s", r.why.c_str());
                CHECK(r.image == v.releases[n], "a published update was installed as something else: %s", cmp(r.image, v.releases[n]).c_str());
            } else if (r.accepted) {
                c.label("tampered with, accepted as a release");
                bool ok = false;
                std::string what = "", first;
                for (size_t i = v.releases.size(); i-- > 0 && !ok;) {
                    ok = same_release(r.image, v.releases[i], what);
                    if (first.empty() || what != "header")
                        first = what;
                }
                CHECK(ok, "the device accepted an image that is no published release: %s differs", first.c_str());
            } else
                c.label("tampered with, refused");
            d.installed = keep;
            c.nontrivial();
            if (honest) {
                d.installed = r.image;
                at = n;
                break;
            }
        }
    }
}

static std::vector<Prop> props = {
    {"C40", "device", life, 2000, 60000,
     "a vendor with a root key, a signed keystore of 1-3 keys and a product of 1-4 parts (hash trees, parts left out of the hash, any coding) publishes 2-4 releases, by the tool or by reference code; a device decodes (file, stream, tool), verifies with the keystore and installs; on the way the transport archive, the keystore or the installed archive may be damaged, mixed with others or signed by somebody else; non-trivial: all", 90},
};
PBT_MAIN(props)
