// C27 command line histories, C28 metadata on the command line, C29 compare, C30 keystore generator.
// PBT_NEEDS_CLI PBT_LIB(crypto)
#include "world.hh"
#include "cli.hh"
#include "ossl.hh"
#include <dlfcn.h>
extern "C" {
#include <bpak/bpak.h>
#include <bpak/pkg.h>
#include <bpak/keystore.h>
}
using namespace pbt;
using namespace model;
using namespace cli;

static const char *PNAMES[] = {"fs", "kernel", "fs-hash-tree", "a", "boot part", "data-1", "kernel-hash-tree", "\xc3\xa5", "p=q", "-x"};
static const char *MNAMES[] = {"bpak-package", "m1", "meta two", "pb-load-addr", "bpak-version", "keystore-provider-id", "x"};
static const char *KEYS[] = {"p256a", "p256b", "p384a", "p384b", "p521a", "p521b", "rsaa", "rsab"};
static const char *PUBS[] = {".pub.der", ".pub.pem"};
static const char *PRIVS[] = {".key.pem", ".key.der", ".p8.pem", ".p8.der"};
static const char *BADPUB[] = {"bad_k256.pub.pem", "bad_rsa2048.pub.der", "bad_ed.pub.pem", "bad_p224.pub.der", "p256a.key.pem", "nosuchfile"};
static const char *HK[] = {"sha256", "sha384", "sha512"};
static const char *SK[] = {"rsa4096", "prime256v1", "secp384r1", "secp521r1"};

static std::string idref(Gen &g, const std::string &name) // a name or its identifier
{
    uint32_t id = ref::id(name);
    switch (g.below(4)) {
    case 0: return strf("0x%x", id);
    case 1: return strf("0x%08X", id);
    default: return name;
    }
}
static std::string idref(Gen &g, uint32_t id) { return strf(g.flip() ? "0x%x" : "0x%08x", id); }

struct World27 {
    Case &c;
    Gen &g;
    std::string dir;
    Snap want;                      // what the directory must look like
    std::map<std::string, Arc> arc; // the files in it that are archives we know everything about
    std::map<std::string, std::string> signer;
    std::string okmsg;
    unsigned effective = 0, failed = 0;
    World27(Case &c_) : c(c_), g(c_.g), dir(c_.path("wd")) { mkdir(dir.c_str(), 0700); }

    void raw(const std::string &n, const Bytes &b)
    {
        if (!write_file(dir + "/" + n, b))
            FAILF("harness: write");
        want[n] = Ent{false, b};
        arc.erase(n);
        signer.erase(n);
    }
    void put(const std::string &n, const Arc &a)
    {
        raw(n, a.build());
        arc[n] = a;
    }
    std::string arcname() { return strf("%c.bpak", (char)('a' + g.below(3))); }
    std::string known()
    {
        std::vector<std::string> v;
        for (auto &x : arc)
            v.push_back(x.first);
        if (v.empty())
            return "a.bpak";
        return v[(size_t)g.below(v.size())];
    }
    // usually an existing archive, sometimes something that is not one
    std::string target(bool &good)
    {
        good = true;
        if (g.chance(88) && !arc.empty())
            return known();
        good = false;
        switch (g.below(4)) {
        case 0: return "missing.bpak";
        case 1: return "junk";
        case 2: return "short";
        default: return "dir";
        }
    }
    std::string pname() { return g.chance(85) ? PNAMES[g.below(10)] : strf("part%u", (unsigned)g.below(30)); }
    void compare(const std::string &cmd, const std::string &exempt = "")
    {
        Snap s = snap(dir);
        for (auto &x : want) {
            if (x.first == exempt)
                continue;
            auto it = s.find(x.first);
            CHECK(it != s.end(), "after '%s': file %s is gone", cmd.c_str(), x.first.c_str());
            if (it->second == x.second)
                continue;
            if (arc.count(x.first))
                FAILF("after '%s': archive %s is not what the commands prescribe: %s", cmd.c_str(), x.first.c_str(),
                      cmp(it->second.data, x.second.data).c_str());
            FAILF("after '%s': file %s changed: %s", cmd.c_str(), x.first.c_str(), diff_desc(it->second.data, x.second.data).c_str());
        }
        for (auto &x : s)
            CHECK(want.count(x.first) || x.first == exempt, "after '%s': unexpected file %s (%zu bytes)", cmd.c_str(), x.first.c_str(), x.second.data.size());
    }
    Res go(const Argv &a, const std::string &in = "")
    {
        c.log("bpak %s\n", join(a).c_str());
        return cli::run(dir, a, in);
    }
    // must fail, changing nothing
    void refuse(const char *why, const Argv &a, const std::string &exempt = "", const std::string &in = "")
    {
        Res r = go(a, in);
        failed++;
        c.label(std::string("refused: ") + why);
        CHECK(!r.ok(), "'bpak %s' (%s) reported success", join(a).c_str(), why);
        compare(join(a), exempt);
        if (!exempt.empty()) {
            unlink((dir + "/" + exempt).c_str());
            want.erase(exempt);
            arc.erase(exempt);
        }
    }
    Res must(const char *what, const Argv &a, const std::string &in = "")
    {
        Res r = go(a, in);
        c.label(std::string("done: ") + what);
        CHECK(r.ok(), "'bpak %s' failed with exit status %d\n%s", join(a).c_str(), r.status, r.err.substr(0, 500).c_str());
        return r;
    }
    void set_arc(const std::string &n, const Arc &a)
    {
        arc[n] = a;
        want[n] = Ent{false, a.build()};
        effective++;
    }
    Bytes now(const std::string &n) { return slurp(dir + "/" + n); }

    void op_create()
    {
        std::string n = arcname();
        Line l(g);
        l.arg(n);
        bool force = g.flip();
        if (force)
            l.flag('Y', "force");
        Arc a;
        std::string bad;
        if (g.flip()) {
            a.hash_kind = (uint8_t)g.range(1, 3);
            l.opt('H', "hash-kind", HK[a.hash_kind - 1]);
        } else if (g.chance(8))
            l.opt('H', "hash-kind", bad = g.pick<const char *>({"md5", "SHA256", "sha", "sha2566"}));
        if (g.flip()) {
            a.sig_kind = (uint8_t)g.range(1, 4);
            l.opt('S', "signature-kind", SK[a.sig_kind - 1]);
        } else if (g.chance(8))
            l.opt('S', "signature-kind", bad = g.pick<const char *>({"rsa", "prime256v2", "p"}));
        else
            a.sig_kind = 2;
        a.update_hash();
        std::string in = g.pick<const char *>({"Y\n", "N\n", "y\n", "", "\n", "YES\n", "nY\n"});
        bool exists = want.count(n) != 0;
        Argv av = l.build("create");
        bool a_bad = false;
        for (auto &x : av)
            if (!bad.empty() && x.find(bad) != std::string::npos)
                a_bad = true;
        if (!bad.empty() || a_bad) {
            refuse("create with unknown kind", av, "", in);
            return;
        }
        if (exists && !force && in[0] != 'Y') {
            refuse("create without confirmation", av, "", in);
            return;
        }
        must("create", av, in);
        signer.erase(n);
        set_arc(n, a);
        compare(join(av));
    }
    void op_add_part()
    {
        bool good;
        std::string t = target(good);
        std::string nm = pname();
        uint32_t id = ref::id(nm);
        Line l(g);
        l.arg(t);
        l.opt('p', "part", nm);
        uint8_t fl = 0;
        if (g.chance(30)) {
            fl = 1;
            l.opt('F', "set-flag", "dont-hash");
        }
        const char *why = nullptr;
        size_t kind = g.weighted({5, 2, 3, 1});
        Arc a = good ? arc[t] : Arc();
        std::string file;
        Bytes d;
        if (kind == 1) {
            file = keydir();
            if (g.chance(80)) {
                std::string k = KEYS[g.below(8)];
                d = slurp(keydir() + k + ".pub.der");
                file += k + PUBS[g.below(2)];
            } else {
                file += BADPUB[g.below(6)];
                why = "unusable key file";
            }
            l.opt('f', "from-file", file);
            l.opt('e', "encoder", "key");
        } else if (kind == 2) {
            size_t n = g.chance(85) ? 4096 * (size_t)g.range(1, 3) : (size_t)g.edge_size(9000);
            d = g.content(n);
            raw("in0", d);
            l.opt('f', "from-file", "in0");
            l.opt('e', "encoder", "merkle");
            uint32_t tid = ref::tree_id(id);
            if (n == 0 || n % 4096)
                why = "merkle with unsuitable length";
            else if (good && (a.parts.size() >= 31 || a.find(tid) >= 0 || a.find_meta(ID_SALT, id) >= 0 || a.find_meta(ID_ROOT, id) >= 0 ||
                              a.metas.size() > 30 || a.meta_used() + 64 > 1920))
                why = "merkle without room";
        } else if (kind == 0) {
            d = g.content((size_t)g.edge_size(9000));
            if (g.chance(8)) {
                l.opt('f', "from-file", "nosuchfile");
                why = "missing input file";
            } else {
                raw("in0", d);
                l.opt('f', "from-file", "in0");
            }
        } else {
            switch (g.below(5)) {
            case 0:
                l.opt('f', "from-file", "junk");
                l.opt('e', "encoder", g.pick<const char *>({"xyz", "", "Key", "merkle2", "uuid", "integer"}));
                why = "unknown part encoder";
                break;
            case 1:
                l.opt('f', "from-file", "junk");
                l.opt('F', "set-flag", g.pick<const char *>({"hash", "", "dont-hashh"}));
                why = "unknown flag";
                break;
            case 2:
                l.opt('s', "from-string", "hello");
                why = "part from string";
                break;
            case 3:
                l.opt('s', "from-string", "hello");
                l.opt('e', "encoder", g.pick<const char *>({"key", "merkle"}));
                why = "part from string";
                break;
            default: why = "no input given";
            }
        }
        if (!good)
            why = "not an archive";
        else if (!why && a.find(id) >= 0)
            why = "duplicate part";
        else if (!why && a.parts.size() >= 32)
            why = "full part table";
        Argv av = l.build("add");
        if (why) {
            refuse(why, av);
            return;
        }
        must(kind == 0 ? "add file" : kind == 1 ? "add key" : "add merkle", av);
        if (kind == 2) {
            Bytes f = now(t);
            Bytes salt(32, 0);
            if (f.size() >= 4096)
                for (auto &x : ref::parse(f).metas)
                    if (x.id == ID_SALT && x.ref == id && x.data.size() == 32)
                        salt = x.data;
            a.add_with_tree(id, d, salt, fl);
        } else
            a.add(id, d, fl);
        a.update_hash();
        set_arc(t, a);
        compare(join(av));
    }
    void op_add_meta()
    {
        bool good;
        std::string t = target(good);
        std::string nm = g.chance(20) ? strf("meta%u", (unsigned)g.below(40)) : MNAMES[g.below(7)];
        Line l(g);
        l.arg(t);
        l.opt('m', "meta", nm);
        uint32_t rf = 0;
        if (g.chance(40)) {
            std::string r = pname();
            l.opt('r', "part-ref", r);
            rf = ref::id(r);
        }
        Bytes d;
        const char *why = nullptr;
        if (g.flip()) {
            std::string s((size_t)g.range(0, 60), 'a');
            for (auto &ch : s)
                ch = (char)('!' + (ch + s.size()) % 90);
            l.opt('s', "from-string", s);
            d.assign(s.begin(), s.end());
            d.push_back(0);
        } else {
            d = g.content((size_t)(g.chance(10) ? g.range(0, 2200) : g.range(0, 100)));
            raw("in1", d);
            l.opt('f', "from-file", "in1");
            if (d.empty())
                why = "empty metadata file";
            else if (d.size() > 1920)
                why = "oversized metadata file";
        }
        Arc a = good ? arc[t] : Arc();
        if (!good)
            why = "not an archive";
        else if (!why && a.find_meta(ref::id(nm), rf) >= 0)
            why = "duplicate metadata";
        else if (!why && !a.meta_fits(d.size()))
            why = "no room for metadata";
        Argv av = l.build("add");
        if (why) {
            refuse(why, av);
            return;
        }
        must("add metadata", av);
        a.add_meta(ref::id(nm), rf, d);
        set_arc(t, a);
        compare(join(av));
    }
    void op_delete()
    {
        bool good;
        std::string t = target(good);
        Line l(g);
        l.arg(t);
        Arc a = good ? arc[t] : Arc();
        bool keep = g.flip();
        if (keep)
            l.flag('k', "keep-meta");
        const char *why = good ? nullptr : "not an archive";
        if (g.chance(12)) {
            l.flag('a', "all");
            a.parts.clear();
            if (!keep)
                for (size_t i = 0; i < a.metas.size();)
                    if (a.metas[i].ref)
                        a.metas.erase(a.metas.begin() + (long)i);
                    else
                        i++;
        } else if (g.chance(5)) {
            why = "neither part nor all";
        } else {
            uint32_t id;
            if (!a.parts.empty() && g.chance(85)) {
                id = a.parts[g.below(a.parts.size())].id;
                std::string name;
                for (auto n : PNAMES)
                    if (ref::id(n) == id)
                        name = n;
                l.opt('p', "part", name.empty() ? idref(g, id) : idref(g, name));
            } else if (!a.parts.empty() && g.chance(40)) { // not a reference to any part
                id = a.parts[g.below(a.parts.size())].id;
                std::string s = g.flip() ? strf("0x1%08x", id) : strf("0x%xq", id);
                l.opt('p', "part", s);
                id = ref::id(s);
            } else {
                std::string n = pname();
                id = ref::id(n);
                l.opt('p', "part", n);
            }
            int i = a.find(id);
            if (i < 0)
                why = why ? why : "unknown part";
            else {
                a.parts.erase(a.parts.begin() + i);
                if (!keep)
                    a.drop_meta_of(id);
            }
        }
        Argv av = l.build("delete");
        if (why) {
            refuse(why, av);
            return;
        }
        must("delete", av);
        a.update_hash();
        set_arc(t, a);
        compare(join(av));
    }
    void op_extract()
    {
        bool good;
        std::string t = target(good);
        Line l(g);
        l.arg(t);
        Arc a = good ? arc[t] : Arc();
        const char *why = good ? nullptr : "not an archive";
        Bytes d;
        size_t kind = g.weighted({5, 4, 1});
        if (kind == 0) {
            uint32_t id;
            if (!a.parts.empty() && g.chance(90)) {
                id = a.parts[g.below(a.parts.size())].id;
                std::string name;
                for (auto n : PNAMES)
                    if (ref::id(n) == id)
                        name = n;
                l.opt('p', "part", name.empty() ? idref(g, id) : idref(g, name));
            } else {
                std::string n = pname();
                id = ref::id(n);
                l.opt('p', "part", n);
            }
            int i = a.find(id);
            if (i < 0)
                why = why ? why : "unknown part";
            else
                d = a.parts[(size_t)i].data();
        } else if (kind == 1) {
            uint32_t id, rf = 0;
            if (!a.metas.empty() && g.chance(90)) {
                auto &m = a.metas[g.below(a.metas.size())];
                id = m.id;
                rf = g.chance(90) ? m.ref : 0;
                l.opt('m', "meta", idref(g, id));
            } else {
                std::string n = MNAMES[g.below(7)];
                id = ref::id(n);
                l.opt('m', "meta", n);
            }
            if (rf)
                l.opt('r', "part-ref", idref(g, rf));
            int i = a.find_meta(id, rf);
            if (i < 0)
                why = why ? why : "unknown metadata";
            else
                d = a.metas[(size_t)i].data;
        } else {
            if (g.flip()) {
                l.opt('p', "part", "fs");
                l.opt('m', "meta", "m1");
            }
            why = "neither or both of part and metadata";
        }
        std::string out;
        if (g.chance(75)) {
            out = strf("out%u", (unsigned)g.below(3));
            if (g.chance(5)) {
                out = "";
                l.opt('o', "output", "nodir/out");
                why = why ? why : "impossible output";
            } else {
                l.opt('o', "output", out);
                if (g.chance(30))
                    raw(out, g.content((size_t)g.range(0, 20000)));
            }
        }
        Argv av = l.build("extract");
        if (why) {
            refuse(why, av);
            return;
        }
        Res r = must(kind == 0 ? "extract part" : "extract metadata", av);
        if (!out.empty()) {
            want[out] = Ent{false, d};
            effective++;
        } else if (!l.verbose)
            CHECK(r.out == std::string(d.begin(), d.end()), "'bpak %s' printed other bytes than stored: %s", join(av).c_str(),
                  diff_desc(Bytes(r.out.begin(), r.out.end()), d).c_str());
        compare(join(av));
    }
    void op_set_ids()
    {
        bool good;
        std::string t = target(good);
        Line l(g);
        l.arg(t);
        Arc a = good ? arc[t] : Arc();
        bool k = g.flip(), s = !k || g.flip();
        if (k) {
            std::string n = pname();
            if (g.flip()) {
                a.key_id = (uint32_t)g.draw(1ull << 32);
                l.opt('k', "key-id", idref(g, a.key_id));
            } else {
                a.key_id = ref::id(n);
                l.opt('k', "key-id", n);
            }
        }
        if (s) {
            std::string n = pname();
            a.ks_id = ref::id(n);
            l.opt('i', "keystore-id", idref(g, n));
        }
        Argv av = l.build("set");
        if (!good) {
            refuse("not an archive", av);
            return;
        }
        must("set ids", av);
        set_arc(t, a);
        compare(join(av));
    }
    void op_sign()
    {
        bool good;
        std::string t = target(good);
        Line l(g);
        l.arg(t);
        Arc a = good ? arc[t] : Arc();
        const char *why = good ? nullptr : "not an archive";
        std::string key;
        size_t kind = g.weighted({6, 2, 2});
        if (kind == 0) {
            key = KEYS[g.below(8)];
            std::string f = key + PRIVS[g.below(4)];
            // some algorithms cannot sign some hashes
            l.opt('k', "key", keydir() + f);
        } else if (kind == 1) {
            if (g.chance(10)) {
                l.opt('f', "signature", "nosuchfile");
                why = "missing signature file";
            } else {
                Bytes s = g.content((size_t)(g.chance(15) ? g.range(513, 3000) : g.range(1, 512)));
                raw("sig", s);
                l.opt('f', "signature", "sig");
                if (s.size() > 512)
                    why = why ? why : "oversized signature";
                a.sig = s;
            }
        } else {
            if (g.flip())
                l.opt('k', "key", g.pick<std::string>({keydir() + "p256a.pub.pem", keydir() + "bad_rsa2048.key.pem", "junk", "nosuchfile", "dir", "short"}));
            why = "no usable key";
        }
        Argv av = l.build("sign");
        if (why) {
            refuse(why, av);
            return;
        }
        must(kind == 0 ? "sign" : "set signature", av);
        signer.erase(t);
        if (kind == 0) {
            Bytes f = now(t);
            CHECK(f.size() >= 4096, "signing truncated the archive");
            ref::Header h = ref::parse(f);
            CHECK(h.sig_sz > 0 && h.sig_sz <= 512, "'bpak %s' succeeded but stored a signature of %u bytes", join(av).c_str(), h.sig_sz);
            a.sig.assign(h.signature.begin(), h.signature.begin() + h.sig_sz);
            a.update_hash();
            CHECK(ossl::verify(key, a.hash_kind, ref::header_digest(a.build()), a.sig), "'bpak %s' stored a signature that is not the key's over the header",
                  join(av).c_str());
            signer[t] = key;
        }
        set_arc(t, a);
        compare(join(av));
    }
    // whether 'key' verifies the file, by definition
    static bool verifies(const Bytes &f, const std::string &key)
    {
        ref::Header h = ref::parse(f);
        Bytes ph = ref::payload_hash(f);
        if (ph.empty() || !std::equal(ph.begin(), ph.end(), f.begin() + ref::H_PHASH))
            return false;
        if (h.sig_sz > 512)
            return false;
        return ossl::verify(key, h.hash_kind, ref::header_digest(f), Bytes(h.signature.begin(), h.signature.begin() + h.sig_sz));
    }
    void op_verify()
    {
        std::string t;
        bool good = true;
        if (!signer.empty() && g.chance(75)) {
            auto it = signer.begin();
            std::advance(it, (long)g.below(signer.size()));
            t = it->first;
        } else
            t = target(good);
        Line l(g);
        const char *why = good ? nullptr : "not an archive";
        Bytes f;
        std::string file = t;
        if (good) {
            f = want[t].data;
            if (g.chance(25)) { // verify a damaged copy
                size_t i = (size_t)(g.flip() ? g.below(f.size()) : g.below(4096));
                f[i] ^= (uint8_t)(1u << g.below(8));
                file = "copy.bpak";
                raw(file, f);
                c.log("copy.bpak is %s with byte %zu changed\n", t.c_str(), i);
            } else if (g.chance(10) && f.size() > 4096) {
                f.resize(f.size() - (size_t)g.range(1, f.size() - 4096));
                file = "copy.bpak";
                raw(file, f);
                c.log("copy.bpak is %s cut to %zu bytes\n", t.c_str(), f.size());
            }
        }
        l.arg(file);
        std::string key;
        bool expect = false;
        size_t kind = g.weighted({6, 4, 1});
        if (kind == 0) {
            key = signer.count(t) && g.chance(75) ? signer[t] : KEYS[g.below(8)];
            l.opt('k', "key", keydir() + key + PUBS[g.below(2)]);
        } else if (kind == 1) {
            // a keystore archive next to it
            Arc ks;
            uint32_t kid = good ? (uint32_t)ref::le(f, ref::H_KEYID, 4) : 5, sid = good ? (uint32_t)ref::le(f, ref::H_KSID, 4) : 6;
            ks.add_meta(ID_PACKAGE, 0, Bytes{0x5d, 0xf1, 0x03, 0xef, 0xe7, 0x74, 0x45, 0x0b, 0x95, 0xc5, 0x1f, 0xef, 0x51, 0xce, 0xec, 0x28});
            uint32_t prov = g.chance(85) ? sid : sid + 1;
            Bytes pv(4);
            ref::put(pv, 0, 4, prov);
            ks.add_meta(ID_KEYSTORE_PROVIDER, 0, pv);
            key = signer.count(t) && g.chance(85) ? signer[t] : KEYS[g.below(8)];
            uint32_t kslot = g.chance(85) ? kid : kid + 1;
            std::vector<std::pair<uint32_t, std::string>> ents;
            if (g.flip())
                ents.push_back({0x99, KEYS[g.below(8)]});
            ents.push_back({kslot, key});
            if (g.flip())
                ents.push_back({0x98, KEYS[g.below(8)]});
            for (auto &e : ents)
                if (e.first && ks.find(e.first) < 0)
                    ks.add(e.first, slurp(keydir() + e.second + ".pub.der"), 0);
            ks.update_hash();
            put("ks.bpak", ks);
            l.opt('K', "keystore", "ks.bpak");
            if (prov != sid || kslot != kid || kid == 0)
                why = why ? why : "keystore without the key";
            if (kid == 0x99 || kid == 0x98)
                throw Discard{};
        } else {
            if (g.flip())
                l.opt('k', "key", g.pick<std::string>({"junk", "nosuchfile", keydir() + "bad_rsa2048.pub.pem"}));
            why = "no usable key";
        }
        if (!why)
            expect = ref::le(f, 0, 4) == 0x42504132 && verifies(f, key);
        Argv av = l.build("verify");
        // a flipped bit may make the header invalid; the command then fails before it gets to the signature
        Res r = go(av);
        int tr = expect ? tree_state(f) : 1;
        if (tr < 0) {
            c.label("verify with a root hash over coded data");
            compare(join(av));
            return;
        }
        expect = expect && tr;
        c.label(expect ? "done: verify" : "refused: verify");
        if (expect) {
            CHECK(r.ok(), "'bpak %s' refused a good signature\n%s", join(av).c_str(), r.err.substr(0, 300).c_str());
            effective++;
        } else {
            CHECK(!r.ok(), "'bpak %s' accepted (%s)", join(av).c_str(), why ? why : "the signature, payload or key is wrong");
            failed++;
        }
        compare(join(av));
    }
    void op_transport_add()
    {
        bool good;
        std::string t = target(good);
        Line l(g);
        l.arg(t);
        Arc a = good ? arc[t] : Arc();
        const char *why = good ? nullptr : "not an archive";
        std::string pn = !a.parts.empty() && g.chance(80) ? "" : pname();
        uint32_t id = pn.empty() ? a.parts[g.below(a.parts.size())].id : ref::id(pn);
        l.flag('a', "add");
        std::string v = pn.empty() ? idref(g, id) : pn;
        if (g.flip()) {
            l.groups.push_back({"--part", v});
        } else
            l.opt('r', "part-ref", v);
        static const char *E[] = {"bsdiff", "bsdiff-no-comp", "bsdiff-lzma", "remove-data", "no such encoder"};
        static const char *D[] = {"bspatch", "bspatch-no-comp", "bspatch-lzma", "merkle-generate", "no such decoder"};
        size_t k = (size_t)g.below(5);
        size_t miss = g.chance(10) ? 1 + (size_t)g.below(2) : 0;
        if (miss != 1)
            l.opt('e', "encoder", E[k]);
        if (miss != 2)
            l.opt('d', "decoder", D[k]);
        if (miss)
            why = why ? why : "encoder or decoder missing";
        if (good && !why && (a.find_meta(ID_TRANSPORT, id) >= 0 || !a.meta_fits(32)))
            why = "transport metadata exists or no room";
        Argv av = l.build("transport");
        if (why) {
            refuse(why, av);
            return;
        }
        must("transport add", av);
        a.add_transport(id, ref::id(E[k]), ref::id(D[k]));
        set_arc(t, a);
        compare(join(av));
    }
    void op_transport_code()
    {
        bool good;
        std::string t = target(good);
        bool enc = g.flip();
        Line l(g);
        l.arg(t);
        const char *why = good ? nullptr : "not an archive";
        if (enc)
            l.flag('E', "encode");
        else
            l.flag('D', "decode");
        std::string org, out = strf("t%u", (unsigned)g.below(2));
        if (g.chance(70)) {
            org = g.chance(90) ? known() : g.pick<const char *>({"missing.bpak", "junk", "short"});
            if (!arc.count(org))
                why = why ? why : "origin is not an archive";
            l.opt('O', "origin", org);
        }
        for (unsigned k = 0; out == t || out == org; k++) // writing over the own input is not meant to work
            out = strf("t%u", k);
        if (g.chance(7)) {
            out = "";
            why = why ? why : "no output";
        } else
            l.opt('o', "output", out);
        if (g.chance(5)) {
            l.flag('a', "add");
            why = why ? why : "conflicting commands";
        }
        Argv av = l.build("transport");
        if (why) {
            refuse(why, av, out);
            return;
        }
        // the library, on copies
        std::string o2 = c.path("libout");
        unlink(o2.c_str());
        int rc = world::file_code(enc, dir + "/" + t, o2, org.empty() ? "" : dir + "/" + org);
        if (rc != 0) {
            refuse(enc ? "library refuses to encode" : "library refuses to decode", av, out);
            return;
        }
        must(enc ? "encode" : "decode", av);
        Bytes w = slurp(o2);
        Bytes got = exists(dir + "/" + out) ? now(out) : Bytes();
        CHECK(got == w, "'bpak %s' wrote another archive than the library: %s", join(av).c_str(), cmp(got, w).c_str());
        want[out] = Ent{false, w};
        effective++;
        arc.erase(out);
        signer.erase(out);
        Arc a;
        if (to_arc(w, a)) {
            arc[out] = a;
            if (g.chance(60) && enc) { // use it as an archive of its own
                c.label("encoded archive in use");
            }
        }
        compare(join(av));
    }
    void op_read()
    {
        bool good;
        std::string t = target(good);
        Line l(g);
        Argv av;
        size_t kind = g.weighted({3, 2, 2, 1});
        if (kind == 0) {
            l.arg(t);
            if (g.flip())
                l.flag('H', "hash");
            av = l.build("show");
        } else if (kind == 1) {
            bool g2;
            std::string t2 = target(g2);
            l.arg(t).arg(t2);
            good = good && g2;
            av = l.build("compare");
        } else if (kind == 2) {
            std::string n = pname();
            if (n[0] == '-')
                n = "fs";
            l.arg("id").arg(n);
            av = l.build("generate");
            Res r = must("generate id", av);
            CHECK(r.out == strf("id(\"%s\") = 0x%08x\n", n.c_str(), ref::id(n)), "'bpak %s' printed %s", join(av).c_str(), r.out.c_str());
            compare(join(av));
            return;
        } else {
            static const char *A[] = {"create", "add", "delete", "transport", "sign", "verify", "show", "set", "generate", "compare", "extract"};
            const char *a = A[g.below(11)];
            if (g.flip()) {
                l.flag('h', "help");
                l.arg(t);
                av = l.build(a, false);
                must("help", av);
                compare(join(av));
                return;
            }
            const char *why;
            switch (g.below(3)) {
            case 0:
                av = {a};
                why = "nothing else given";
                break;
            case 1:
                av = {a, "--no-such-option", t};
                why = "unknown option";
                break;
            default:
                av = {"frobnicate", t};
                why = "unknown action";
            }
            refuse(why, av);
            return;
        }
        Res r = go(av);
        CHECK(r.ok() == good, "'bpak %s' ended with status %d", join(av).c_str(), r.status);
        if (kind == 0 && good && av.size() >= 3) {
            bool h = false;
            for (auto &x : av)
                if (x == "-H" || x == "--hash")
                    h = true;
            if (h && !l.verbose) {
                Bytes d = ref::header_digest(want[t].data);
                CHECK(r.out == hexs(d.data(), d.size()) + "\n", "'bpak %s' printed %s", join(av).c_str(), r.out.c_str());
            }
        }
        c.label(good ? "done: show or compare" : "refused: show or compare");
        compare(join(av));
    }
    // commands that read a truncated archive must say so
    void op_damaged()
    {
        std::string t = known();
        if (!arc.count(t) || arc[t].parts.empty())
            return;
        Arc a = arc[t];
        Bytes f = a.build();
        if (f.size() <= 4096)
            return;
        size_t cut = (size_t)g.range(1, f.size() - 4096);
        f.resize(f.size() - cut);
        raw("copy.bpak", f);
        c.log("copy.bpak is %s cut to %zu bytes\n", t.c_str(), f.size());
        size_t off = 4096, k = (size_t)g.below(a.parts.size());
        bool hash_hurt = false, part_hurt = false;
        for (size_t i = 0; i < a.parts.size(); i++) {
            size_t e = off + a.parts[i].stored.size();
            if (e > f.size() && e > off && !(a.parts[i].flags & 1))
                hash_hurt = true;
            if (i == k)
                part_hurt = !a.parts[i].data().empty() && off + a.parts[i].data().size() > f.size();
            off = e;
        }
        Line l(g);
        l.arg("copy.bpak");
        Argv av;
        bool bad;
        std::string out;
        switch (g.below(4)) {
        case 0:
            out = "out0";
            l.opt('p', "part", idref(g, a.parts[k].id));
            l.opt('o', "output", out);
            av = l.build("extract");
            bad = part_hurt;
            break;
        case 1:
            l.flag('H', "hash");
            av = l.build("show");
            bad = hash_hurt;
            break;
        case 2:
            l.flag('B', "binary-hash");
            av = l.build("show");
            bad = hash_hurt;
            break;
        default:
            l.opt('P', "part-hash", idref(g, a.parts[k].id));
            av = l.build("show");
            bad = part_hurt;
        }
        if (bad) {
            c.label("refused: truncated archive");
            refuse("truncated archive", av, out);
            return;
        }
        Res r = go(av);
        CHECK(r.ok(), "'bpak %s' failed (%d) although the bytes it needs are there", join(av).c_str(), r.status);
        if (!out.empty())
            want[out] = Ent{false, a.parts[k].data()};
        compare(join(av));
    }
};

static void history(Case &c)
{
    Gen &g = c.g;
    World27 w(c);
    w.raw("junk", g.content((size_t)g.range(4096, 6000)));
    if (w.want["junk"].data[0] == 0x32)
        w.raw("junk", Bytes(5000, 0x11));
    w.raw("short", g.content((size_t)g.range(1, 4095)));
    mkdir((w.dir + "/dir").c_str(), 0700);
    w.want["dir"].dir = true;
    size_t n = (size_t)g.range(1, 14);
    for (size_t i = 0; i < n; i++) {
        if (w.arc.empty() && i == 0 && g.chance(90)) {
            if (g.flip()) {
                arcgen::Opt o;
                o.enc_pct = 10;
                Arc a = arcgen::make(g, o);
                a.sig_kind = 2;
                w.put("a.bpak", a);
                c.log("a.bpak: ");
                arcgen::describe(c, a);
                if (g.flip())
                    w.put("b.bpak", arcgen::make(g, o));
            } else
                w.op_create();
            continue;
        }
        switch (g.weighted({2, 8, 5, 4, 5, 2, 4, 5, 3, 3, 3, 1})) {
        case 0: w.op_create(); break;
        case 1: w.op_add_part(); break;
        case 2: w.op_add_meta(); break;
        case 3: w.op_delete(); break;
        case 4: w.op_extract(); break;
        case 5: w.op_set_ids(); break;
        case 6: w.op_sign(); break;
        case 7: w.op_verify(); break;
        case 8: w.op_transport_add(); break;
        case 9: w.op_transport_code(); break;
        case 10: w.op_read(); break;
        default: w.op_damaged();
        }
    }
    if (w.effective >= 2)
        c.nontrivial();
}

// whole transport round trips on the command line
static void transport27(Case &c)
{
    Gen &g = c.g;
    world::World w = world::make_world(c, g);
    World27 x(c);
    x.put("in.bpak", w.in);
    x.put("org.bpak", w.org);
    bool use = w.has_delta || g.flip();
    if (w.has_delta || w.has_tree)
        c.nontrivial();
    for (int k = 0; k < 2; k++) {
        Line l(g);
        l.arg(k ? "enc.bpak" : "in.bpak");
        if (k)
            l.flag('D', "decode");
        else
            l.flag('E', "encode");
        if (use)
            l.opt('O', "origin", "org.bpak");
        std::string out = k ? "dec.bpak" : "enc.bpak";
        if (g.chance(30))
            x.raw(out, g.content((size_t)g.range(0, 30000)));
        l.opt('o', "output", out);
        Argv av = l.build("transport");
        x.must(k ? "decode" : "encode", av);
        Bytes got = x.now(out);
        if (k == 0)
            world::check_encoded(w, w.org.build(), got);
        else
            CHECK(got == w.in.build(), "'bpak %s': the decoded archive differs from the original: %s", join(av).c_str(), cmp(got, w.in.build()).c_str());
        x.want[out] = Ent{false, got};
        x.compare(join(av));
    }
}

// ------------------------------------------------------------------ C28
static std::string render(uint32_t id, const Bytes &d, bool &defined)
{
    defined = true;
    auto u32 = [&](size_t o) { return (uint32_t)ref::le(d, o, 4); };
    if (id == 0x7da19399 || id == 0x106c13a7) { // bpak-key-id, bpak-key-store
        defined = d.size() >= 4;
        return defined ? strf("%x", u32(0)) : "";
    }
    if (id == ID_PACKAGE) {
        defined = d.size() == 16;
        if (!defined)
            return "";
        std::string h = hexs(d.data(), 16);
        return h.substr(0, 8) + "-" + h.substr(8, 4) + "-" + h.substr(12, 4) + "-" + h.substr(16, 4) + "-" + h.substr(20);
    }
    if (id == ID_TRANSPORT) {
        defined = d.size() >= 8;
        return defined ? strf("Encode: %08x, Decode: %08x", u32(0), u32(4)) : "";
    }
    if (id == ID_SALT || id == ID_ROOT) {
        defined = d.size() >= 32;
        return defined ? hexs(d.data(), 32) : "";
    }
    if (id == ref::id("pb-load-addr")) {
        defined = d.size() >= 8;
        return defined ? strf("Entry: 0x%08llX", (unsigned long long)ref::le(d, 0, 8)) : "";
    }
    if (id == ref::id("bpak-version")) {
        std::string s(d.begin(), d.end());
        defined = s.size() < 60;
        return s.substr(0, strlen(s.c_str()));
    }
    if (id == ID_KEYSTORE_PROVIDER) {
        defined = d.size() >= 4;
        return defined ? strf("0x%x", u32(0)) : "";
    }
    return "";
}
struct Val {
    std::string text;
    Bytes data;
    bool bad = false;    // must be refused
    bool either = false; // may be refused, but never stored as something else
    const char *enc = nullptr;
};
static Val make_value(Gen &g, size_t kind)
{
    Val v;
    if (kind == 0) { // text
        size_t n = (size_t)(g.chance(10) ? g.range(1880, 1930) : g.chance(10) ? g.range(0, 400) : g.range(0, 40));
        v.text.resize(n);
        Rng r(g.draw(1u << 24));
        for (auto &x : v.text)
            x = (char)(r.next() % 255 + 1);
        v.data.assign(v.text.begin(), v.text.end());
        v.data.push_back(0);
    } else if (kind == 1) { // integer
        v.enc = "integer";
        if (g.chance(72)) {
            int64_t x;
            switch (g.below(6)) {
            case 0: x = (int64_t)g.below(200); break;
            case 1: x = -(int64_t)g.below(200); break;
            case 2: x = (int64_t)g.draw(0); break;
            case 3: x = INT64_MAX - (int64_t)g.below(3); break;
            case 4: x = INT64_MIN + (int64_t)g.below(3); break;
            default: x = (int64_t)((1ull << g.below(63)) - g.below(2));
            }
            unsigned long long m = x < 0 ? 0ull - (unsigned long long)x : (unsigned long long)x;
            std::string s;
            switch (g.below(5)) {
            case 0: s = strf("%llu", m); break;
            case 1: s = strf("0x%llx", m); break;
            case 2: s = strf("0X%016llX", m); break;
            case 3: s = strf("0%llo", m); break;
            default: s = strf("0x%08llx", m);
            }
            s = (x < 0 ? "-" : g.chance(20) ? "+" : "") + s;
            if (g.chance(10))
                s = " " + s;
            v.text = s;
            v.data.resize(8);
            ref::put(v.data, 0, 8, (uint64_t)x);
        } else if (g.chance(30)) { // above the signed range: exact or refused
            uint64_t x = (1ull << 63) + (g.flip() ? g.below(3) : g.draw(1ull << 63));
            v.text = strf(g.flip() ? "%llu" : "0x%llx", (unsigned long long)x);
            v.data.resize(8);
            ref::put(v.data, 0, 8, x);
            v.either = true;
        } else {
            v.bad = true;
            v.text = g.pick<const char *>({"", " ", "abc", "12abc", "0x", "0xg", "1 2", "1.5", "--1", "99999999999999999999", "08", "0x12345678901234567",
                                           "-99999999999999999999", "1e3", "10k", "0b", "12,", "1_000", "+", "-", "0x1x"});
        }
    } else if (kind == 2) { // uuid
        v.enc = "uuid";
        Bytes u(16);
        for (auto &x : u)
            x = (uint8_t)g.draw(256);
        bool d;
        std::string s = render(ID_PACKAGE, u, d);
        if (g.flip())
            for (auto &x : s)
                x = (char)toupper(x);
        if (g.chance(30)) {
            v.bad = true;
            switch (g.below(7)) {
            case 0: s = ""; break;
            case 1: s.pop_back(); break;
            case 2: s += "0"; break;
            case 3: s[8] = '0'; break;
            case 4: s[(size_t)g.pick<int>({0, 7, 9, 14, 19, 24, 35})] = g.pick<char>({'g', ' ', '-', '/', 'G', ':', '@', '`', '\x80'}); break;
            case 5: s = "{" + s.substr(0, 34) + "}"; break;
            default: s = g.pick<const char *>({"0x3d-556-49f5-a9cd-481ebf22baab", "abc", "74a53c6d355649f5a9cd481ebf22baab"});
            }
        }
        v.text = s;
        v.data = u;
    } else { // id
        v.enc = "id";
        size_t n = (size_t)(g.chance(5) ? g.range(1900, 1940) : g.range(0, 30));
        v.text.resize(n);
        Rng r(g.draw(1u << 24));
        for (auto &x : v.text)
            x = (char)(r.next() % 94 + 33);
        v.data.resize(4);
        ref::put(v.data, 0, 4, ref::id(v.text));
        v.either = n > 1919;
    }
    return v;
}
static void values(Case &c)
{
    Gen &g = c.g;
    World27 w(c);
    arcgen::Opt o;
    o.max_size = 2000;
    o.max_blocks = 1;
    Arc a = arcgen::make(g, o);
    if (g.chance(30)) // little room left
        a.add_meta(0x77, 0, Bytes((size_t)(1920 - std::min<size_t>(1920, a.meta_used() + (size_t)g.below(300)))));
    if (a.meta_used() > 1920)
        throw Discard{};
    w.put("a.bpak", a);
    arcgen::describe(c, a);
    static const char *N[] = {"m1", "bpak-package", "pb-load-addr", "bpak-version", "keystore-provider-id", "m2", "a-longer-name"};
    size_t n = (size_t)g.range(1, 6);
    unsigned stored = 0;
    for (size_t i = 0; i < n; i++) {
        a = w.arc["a.bpak"];
        std::string nm = N[g.below(7)];
        uint32_t id = ref::id(nm);
        size_t kind = nm == "bpak-package" && g.chance(80) ? 2 : nm == "pb-load-addr" && g.chance(80) ? 1 : nm == "bpak-version" && g.chance(80) ? 0
                    : nm == "keystore-provider-id" && g.chance(80) ? 3 : (size_t)g.below(4);
        bool have = a.find_meta(id, 0) >= 0;
        bool set = have ? g.chance(75) : g.chance(8);
        Val v = make_value(g, kind);
        Line l(g);
        l.arg("a.bpak");
        l.opt('m', "meta", nm);
        const char *why = v.bad ? "value does not parse" : nullptr;
        uint32_t rf = 0;
        bool ids = false;
        Arc b = a;
        if (v.enc)
            l.opt('e', "encoder", v.enc);
        else if (g.chance(5)) {
            l.opt('e', "encoder", g.pick<const char *>({"string", "", "hex", "int"}));
            why = "unknown encoder";
        }
        if (!set) {
            if (g.chance(35)) {
                std::string r = a.parts.empty() || g.chance(20) ? "kernel" : "";
                if (r.empty()) {
                    static const char *pn[] = {"fs", "kernel", "boot", "data", "x", "initrd"};
                    r = pn[g.below(6)];
                }
                l.opt('r', "part-ref", r);
                rf = ref::id(r);
            }
            if (g.chance(30)) { // the value comes from a file
                Bytes d(v.text.begin(), v.text.end());
                if (kind == 0) {
                    d = g.content((size_t)(g.chance(20) ? g.range(1900, 2000) : g.chance(10) ? g.range(1921, 9000) : g.range(0, 100)));
                    v.data = d;
                }
                w.raw("val", d);
                l.opt('f', "from-file", "val");
                if (d.empty() && !why)
                    why = "empty value file";
                if (d.size() > 1920 && !why)
                    why = kind == 3 ? nullptr : "value file too large";
            } else
                l.opt('s', "from-string", v.text);
            if (!why && a.find_meta(id, rf) >= 0)
                why = "entry exists";
            if (!why && !a.meta_fits(v.data.size()))
                why = "no room";
            b.add_meta(id, rf, v.data);
        } else {
            l.opt('s', "from-string", v.text);
            int k = a.find_meta(id, 0);
            if (k < 0)
                why = why ? why : "no such entry";
            else {
                MMeta &m = b.metas[(size_t)k];
                if (kind == 2)
                    why = why ? why : "set does not know uuid"; // documented encoders of set: integer and id
                else if (kind == 0) {
                    if (v.data.size() <= m.data.size()) {
                        std::fill(m.data.begin(), m.data.end(), 0);
                        std::copy(v.data.begin(), v.data.end(), m.data.begin());
                    } else {
                        b.metas.erase(b.metas.begin() + k);
                        if (!b.meta_fits(v.data.size()))
                            why = why ? why : "no room to grow";
                        b.add_meta(id, 0, v.data);
                    }
                } else if (m.data.size() != v.data.size())
                    why = why ? why : "entry has another size";
                else
                    m.data = v.data;
            }
            if (g.chance(25)) { // ids along with metadata
                ids = true;
                b.key_id = (uint32_t)g.draw(1ull << 32);
                l.opt('k', "key-id", idref(g, b.key_id));
                if (g.flip()) {
                    b.ks_id = (uint32_t)g.draw(1ull << 32);
                    l.opt('i', "keystore-id", idref(g, b.ks_id));
                }
            }
        }
        if (kind == 2 && set)
            v.either = true;
        Argv av = l.build(set ? "set" : "add");
        if (why && !(v.either && !v.bad && kind == 2)) {
            w.refuse(why, av);
            continue;
        }
        if (v.either && !v.bad) {
            Res r = w.go(av);
            if (kind == 2)
                continue; // not specified
            if (!r.ok()) {
                w.compare(join(av));
                continue;
            }
            w.set_arc("a.bpak", b);
            w.compare(join(av));
            c.label("extreme value stored exactly");
            continue;
        }
        w.must(set ? ids ? "set with ids" : "set" : v.enc ? v.enc : "text", av);
        w.set_arc("a.bpak", b);
        w.compare(join(av));
        stored++;
        // shown back
        bool defined;
        std::string t = render(id, set ? b.metas[(size_t)b.find_meta(id, 0)].data : v.data, defined);
        if (defined) {
            Line s(g);
            s.arg("a.bpak").opt('m', "meta", idref(g, nm));
            bool first = true;
            for (auto &m : b.metas) {
                if (m.id == id && m.ref == rf)
                    break;
                if (m.id == id)
                    first = false;
            }
            if (rf || !first) {
                if (!rf)
                    continue; // entries without a part reference cannot be selected by one
                s.opt('p', "part", idref(g, rf));
            }
            Argv sv = s.build("show", false);
            Res r = w.must("show --meta", sv);
            std::string want = t.empty() ? "" : t + "\n";
            CHECK(r.out == want, "'bpak %s' shows '%s', stored is '%s'", join(sv).c_str(), r.out.c_str(), want.c_str());
            w.compare(join(sv));
        }
        // and extracted
        if (g.chance(40)) {
            Line s(g);
            s.arg("a.bpak").opt('m', "meta", idref(g, nm));
            if (rf)
                s.opt('r', "part-ref", idref(g, rf));
            Argv sv = s.build("extract", false);
            Res r = w.must("extract --meta", sv);
            Bytes d = b.metas[(size_t)b.find_meta(id, rf)].data;
            CHECK(r.out == std::string(d.begin(), d.end()), "'bpak %s' printed %zu bytes, stored are %zu", join(sv).c_str(), r.out.size(), d.size());
        }
    }
    if (stored)
        c.nontrivial();
}
static std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> v;
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos)
            e = s.size();
        v.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return v;
}
static std::vector<std::string> words(const std::string &s)
{
    std::vector<std::string> v;
    std::string w;
    for (char ch : s + " ")
        if (ch == ' ') {
            if (!w.empty())
                v.push_back(w);
            w.clear();
        } else
            w += ch;
    return v;
}
// an archive with all kinds of metadata, well formed
static void add_known_metas(Gen &g, Arc &a)
{
    auto rnd = [&](size_t n) {
        Bytes b(n);
        Rng r(g.draw(1u << 20));
        for (auto &x : b)
            x = (uint8_t)r.next();
        return b;
    };
    for (int k = 0; k < 7; k++) {
        if (!g.flip())
            continue;
        uint32_t rf = !a.parts.empty() && g.chance(25) ? a.parts[g.below(a.parts.size())].id : 0;
        auto add = [&](uint32_t id, const Bytes &d) {
            if (a.find_meta(id, rf) < 0 && a.meta_fits(d.size()))
                a.add_meta(id, rf, d);
        };
        switch (k) {
        case 0: add(ID_PACKAGE, rnd(16)); break;
        case 1: add(0x7da19399, rnd(4)); break;
        case 2: add(0x106c13a7, rnd(4)); break;
        case 3: add(ref::id("pb-load-addr"), rnd(8)); break;
        case 4: {
            std::string s = strf("v%u.%u-%s", (unsigned)g.below(100), (unsigned)g.below(1000), "rc");
            Bytes d(s.begin(), s.end());
            if (g.flip())
                d.push_back(0);
            add(ref::id("bpak-version"), d);
            break;
        }
        case 5: add(ID_KEYSTORE_PROVIDER, rnd(4)); break;
        default:
            if (!a.parts.empty()) {
                rf = a.parts[g.below(a.parts.size())].id;
                add(ID_TRANSPORT, rnd(32));
            }
        }
    }
}
static std::string id_name(uint32_t id)
{
    for (const char *n : {"bpak-package", "bpak-transport", "merkle-salt", "merkle-root-hash", "pb-load-addr", "bpak-version", "keystore-provider-id"})
        if (ref::id(n) == id)
            return n;
    return "";
}
static void show_all(Case &c)
{
    Gen &g = c.g;
    World27 w(c);
    arcgen::Opt o;
    o.max_size = 3000;
    o.max_blocks = 2;
    o.max_parts = c.thorough ? 12 : 7;
    Arc a = arcgen::make(g, o);
    add_known_metas(g, a);
    a.sig_kind = (uint8_t)g.range(1, 4);
    a.update_hash();
    w.put("a.bpak", a);
    arcgen::describe(c, a);
    bool stale = g.chance(15) && !a.parts.empty();
    Bytes f = a.build();
    if (!a.metas.empty() && !a.parts.empty())
        c.nontrivial();
    Argv av = {"show", "a.bpak"};
    Res r = w.must("show", av);
    auto ls = lines(r.out);
    size_t i = 0;
    auto expect = [&](const std::string &x, const char *what) {
        CHECK(i < ls.size() && ls[i] == x, "show, line %zu (%s): '%s', expected '%s'", i + 1, what, i < ls.size() ? ls[i].c_str() : "(end)", x.c_str());
        i++;
    };
    auto skip = [&](const std::string &key) {
        while (i < ls.size() && ls[i].compare(0, key.size(), key) != 0)
            i++;
        CHECK(i < ls.size(), "show: no line starts with '%s'", key.c_str());
    };
    auto field = [&](const std::string &key, const std::string &val) {
        skip(key);
        auto ws = words(ls[i]);
        CHECK(!ws.empty() && ws.back() == val, "show: '%s', expected %s", ls[i].c_str(), val.c_str());
    };
    field("Hash:", HK[a.hash_kind - 1]);
    field("Signature:", SK[a.sig_kind - 1]);
    field("Key ID:", strf("%08x", a.key_id));
    field("Keystore ID:", strf("%08x", a.ks_id));
    skip("Metadata:");
    i += 2;
    for (auto &m : a.metas) {
        bool d;
        std::string t = render(m.id, m.data, d);
        std::string pre = strf("    %8.8x   %-3zu    %-20s ", m.id, m.data.size(), id_name(m.id).c_str());
        pre += m.ref ? strf("%8.8x", m.ref) : "        ";
        pre += "   ";
        expect(pre + t, "metadata");
    }
    expect("", "end of the metadata");
    skip("Parts:");
    i += 2;
    for (auto &p : a.parts)
        expect(strf("    %8.8x   %-12llu %-3u    %c%c------       %-12llu", p.id, (unsigned long long)p.size, p.pad, p.flags & 1 ? 'h' : '-',
                    p.flags & 2 ? 'T' : '-', (unsigned long long)(p.flags & 2 ? p.stored.size() : p.size)),
               "parts");
    expect("", "end of the parts");
    Bytes hd = ref::header_digest(f), ph = ref::payload_hash(f);
    field("Header hash:", hexs(hd.data(), hd.size()));
    field("Payload hash:", hexs(ph.data(), ph.size()));
    CHECK(r.out.find("Warning") == std::string::npos, "show warns about a correct archive");
    w.compare(join(av));
    Res rh = w.must("show --hash", {"show", g.flip() ? "-H" : "--hash", "a.bpak"});
    CHECK(rh.out == hexs(hd.data(), hd.size()) + "\n", "show --hash printed '%s', expected %s", rh.out.c_str(), hexs(hd.data(), hd.size()).c_str());
    Res rb = w.must("show --binary-hash", {"show", g.flip() ? "-B" : "--binary-hash", "a.bpak"});
    CHECK(rb.out == std::string(hd.begin(), hd.end()), "show --binary-hash printed %zu other bytes", rb.out.size());
    for (auto &p : a.parts) {
        Res rp = w.must("show --part-hash", {"show", "-P", idref(g, p.id), "a.bpak"});
        Bytes d = ref::sha256(p.data());
        CHECK(rp.out == hexs(d.data(), 32) + "\n", "show --part-hash %08x printed '%s'", p.id, rp.out.c_str());
        Res rq = w.must("show --part", {"show", "-p", idref(g, p.id), "a.bpak"});
        CHECK(rq.out == strf("Found 0x%x, %llu bytes\n", p.id, (unsigned long long)p.size), "show --part %08x printed '%s'", p.id, rq.out.c_str());
    }
    w.refuse("show unknown part", {"show", "-p", "no such part", "a.bpak"});
    w.refuse("show unknown metadata", {"show", "-m", "no such meta", "a.bpak"});
    w.refuse("hash of unknown part", {"show", "-P", "no such part", "a.bpak"});
    w.compare("show options");
    if (stale) { // a payload that does not match the stored hash is pointed out
        size_t off = 4096;
        for (auto &p : a.parts) {
            if (!(p.flags & 1) && !p.stored.empty()) {
                Bytes f2 = f;
                f2[off + (size_t)g.below(p.stored.size())] ^= 1;
                w.raw("a.bpak", f2);
                Res r2 = w.must("show of a damaged archive", av);
                CHECK(r2.out.find("Warning") != std::string::npos, "show does not warn about a payload that does not match its hash");
                Bytes h2 = ref::payload_hash(f2);
                CHECK(r2.out.find(hexs(h2.data(), h2.size())) != std::string::npos, "show does not print the computed payload hash");
                w.compare(join(av));
                break;
            }
            off += p.stored.size();
        }
    }
}

// ------------------------------------------------------------------ C29
static std::string strip_ansi(const std::string &s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); i++)
        if (s[i] == 27) {
            while (i < s.size() && s[i] != 'm')
                i++;
        } else
            o += s[i];
    return o;
}
struct Rep {
    std::vector<std::string> metas, parts; // rendered "mark id size ..." in sorted order
    bool operator==(const Rep &o) const { return metas == o.metas && parts == o.parts; }
};
static Rep parse_report(const std::string &out)
{
    Rep r;
    int sec = 0;
    for (auto &l : lines(strip_ansi(out))) {
        if (l == "Metadata:") {
            sec = 1;
            continue;
        }
        if (l == "Parts:") {
            sec = 2;
            continue;
        }
        if (!sec || l.empty() || l.find("    ID ") == 0)
            continue;
        auto w = words(l);
        CHECK(w.size() >= 3 && w[0].size() == 1, "compare: unexpected line '%s'", l.c_str());
        std::string k;
        for (auto &x : w)
            k += (k.empty() ? "" : " ") + x;
        (sec == 1 ? r.metas : r.parts).push_back(k);
    }
    CHECK(sec == 2, "compare printed no complete report:\n%s", out.substr(0, 500).c_str());
    std::sort(r.metas.begin(), r.metas.end());
    std::sort(r.parts.begin(), r.parts.end());
    return r;
}
static Rep ideal(const Arc &a, const Arc &b)
{
    Rep r;
    auto meta = [&](char mark, const MMeta &m) {
        bool d;
        std::string s = strf("%c %08x %zu", mark, m.id, m.data.size());
        std::string n = id_name(m.id), t = render(m.id, m.data, d);
        for (auto &x : {n, t})
            for (auto &y : words(x))
                s += " " + y;
        r.metas.push_back(s);
    };
    auto part = [&](char mark, const MPart &p) {
        r.parts.push_back(strf("%c %08x %llu %u %c%c------ %llu", mark, p.id, (unsigned long long)p.size, p.pad, p.flags & 1 ? 'h' : '-',
                               p.flags & 2 ? 'T' : '-', (unsigned long long)(p.flags & 2 ? p.stored.size() : p.size)));
    };
    for (auto &m : a.metas) {
        int k = b.find_meta(m.id, m.ref);
        meta(k < 0 ? '-' : b.metas[(size_t)k].data == m.data ? '=' : '*', m);
    }
    for (auto &m : b.metas)
        if (a.find_meta(m.id, m.ref) < 0)
            meta('+', m);
    for (auto &p : a.parts) {
        int k = b.find(p.id);
        if (k < 0)
            part('-', p);
        else {
            const MPart &q = b.parts[(size_t)k];
            part(q.size == p.size && q.flags == p.flags && q.stored == p.stored ? '=' : '*', p);
        }
    }
    for (auto &p : b.parts)
        if (a.find(p.id) < 0)
            part('+', p);
    std::sort(r.metas.begin(), r.metas.end());
    std::sort(r.parts.begin(), r.parts.end());
    return r;
}
static void check_report(const Rep &got, const Rep &want, const std::string &cmd)
{
    auto one = [&](const std::vector<std::string> &x, const std::vector<std::string> &y, const char *what) {
        if (x == y)
            return;
        for (auto &l : y)
            CHECK(std::count(x.begin(), x.end(), l) == std::count(y.begin(), y.end(), l), "'%s': %s line '%s' expected %ld time(s), reported %ld", cmd.c_str(),
                  what, l.c_str(), (long)std::count(y.begin(), y.end(), l), (long)std::count(x.begin(), x.end(), l));
        for (auto &l : x)
            CHECK(std::count(y.begin(), y.end(), l), "'%s': unexpected %s line '%s'", cmd.c_str(), what, l.c_str());
    };
    one(got.metas, want.metas, "metadata");
    one(got.parts, want.parts, "part");
}
// a variant of an archive
static Arc vary(Case &c, Gen &g, const Arc &a)
{
    Arc b = a;
    for (uint64_t k = g.below(6); k; k--) {
        switch (g.below(10)) {
        case 0:
            if (!b.parts.empty()) {
                c.log("part removed; ");
                b.parts.erase(b.parts.begin() + (long)g.below(b.parts.size()));
            }
            break;
        case 1:
            if (b.parts.size() < 20) {
                c.log("part added; ");
                uint32_t id = 0x5000 + (uint32_t)g.below(100);
                if (b.find(id) < 0) {
                    b.add(id, g.content((size_t)g.edge_size(3000)), g.flip());
                    if (g.flip())
                        std::rotate(b.parts.begin(), b.parts.end() - 1, b.parts.end());
                }
            }
            break;
        case 2:
            if (!b.parts.empty()) {
                MPart &p = b.parts[g.below(b.parts.size())];
                if (!p.stored.empty() && p.size) {
                    size_t lim = p.flags & 2 ? p.stored.size() : (size_t)p.size;
                    size_t i = g.chance(30) ? lim - 1 : (size_t)g.below(lim);
                    c.log("byte %zu of part %08x changed; ", i, p.id);
                    p.stored[i] ^= (uint8_t)(1u << g.below(8));
                }
            }
            break;
        case 3:
            if (!b.parts.empty()) { // other length, common beginning
                MPart &p = b.parts[g.below(b.parts.size())];
                if (!(p.flags & 2)) {
                    Bytes d = p.data();
                    size_t n = (size_t)g.edge_size(4000);
                    if (g.flip())
                        n = d.size() + (size_t)g.range(0, 2);
                    c.log("part %08x resized to %zu; ", p.id, n);
                    d.resize(n, 0);
                    p.size = n;
                    p.pad = (uint16_t)(-n & 511);
                    p.stored = d;
                    p.stored.resize(n + p.pad, 0);
                }
            }
            break;
        case 4:
            if (!b.parts.empty()) {
                b.parts[g.below(b.parts.size())].flags ^= 1;
                c.log("flag changed; ");
            }
            break;
        case 5:
            if (b.parts.size() > 1) {
                std::swap(b.parts[g.below(b.parts.size())], b.parts[g.below(b.parts.size())]);
                c.log("parts reordered; ");
            }
            break;
        case 6:
            if (!b.metas.empty()) {
                size_t i = (size_t)g.below(b.metas.size());
                if (!b.metas[i].data.empty()) {
                    c.log("metadata changed; ");
                    b.metas[i].data[g.below(b.metas[i].data.size())] ^= 1;
                    if (b.metas[i].id == ref::id("bpak-version"))
                        b.metas[i].data[0] = 'w';
                }
            }
            break;
        case 7:
            if (!b.metas.empty()) {
                c.log("metadata removed; ");
                b.metas.erase(b.metas.begin() + (long)g.below(b.metas.size()));
            }
            break;
        case 8:
            if (b.metas.size() > 1) {
                c.log("metadata reordered; ");
                std::swap(b.metas[g.below(b.metas.size())], b.metas[g.below(b.metas.size())]);
            }
            break;
        default: {
            size_t i = b.metas.empty() ? 0 : (size_t)g.below(b.metas.size());
            if (!b.metas.empty() && g.flip() && b.metas[i].id < 0x100) { // other length, common beginning
                c.log("metadata resized; ");
                b.metas[i].data.resize((size_t)g.range(0, 60), 0);
            } else {
                uint32_t id = 0x60 + (uint32_t)g.below(8);
                if (b.find_meta(id, 0) < 0 && b.meta_fits(40)) {
                    c.log("metadata added; ");
                    b.add_meta(id, 0, g.content((size_t)g.range(0, 40)));
                }
            }
        }
        }
    }
    c.log("\n");
    if (b.meta_used() > 1920)
        throw Discard{};
    b.update_hash();
    return b;
}
static void compare29(Case &c)
{
    Gen &g = c.g;
    World27 w(c);
    arcgen::Opt o;
    o.max_size = 9000;
    o.max_blocks = 2;
    o.max_parts = 6;
    Arc a = arcgen::make(g, o);
    add_known_metas(g, a);
    arcgen::describe(c, a);
    Arc b = g.chance(85) ? vary(c, g, a) : arcgen::make(g, o);
    w.put("a.bpak", a);
    w.put("b.bpak", b);
    w.put("copy.bpak", a);
    auto cmpr = [&](const char *x, const char *y) {
        Argv av = {"compare", x, y};
        if (g.chance(10))
            av.push_back("-v");
        Res r = w.must("compare", av);
        w.compare(join(av));
        return parse_report(r.out);
    };
    Rep ab = cmpr("a.bpak", "b.bpak");
    check_report(ab, ideal(a, b), "compare a.bpak b.bpak");
    Rep ba = cmpr("b.bpak", "a.bpak");
    check_report(ba, ideal(b, a), "compare b.bpak a.bpak");
    Rep aa = cmpr("a.bpak", "a.bpak");
    check_report(aa, ideal(a, a), "compare a.bpak a.bpak");
    Rep ac = cmpr("a.bpak", "copy.bpak");
    check_report(ac, ideal(a, a), "compare a.bpak copy.bpak");
    bool eq = ab == aa;
    if (!eq)
        c.nontrivial();
    unsigned plus = 0, star = 0;
    for (auto &v : {ab.metas, ab.parts})
        for (auto &l : v) {
            plus += l[0] == '+' || l[0] == '-';
            star += l[0] == '*';
        }
    c.label(eq ? "no difference" : plus && star ? "missing and changed entries" : plus ? "missing entries" : "changed entries");
    // a file that is not an archive cannot be compared
    if (g.chance(10)) {
        w.raw("junk", Bytes(5000, 0x11));
        w.refuse("compare with junk", {"compare", "a.bpak", "junk"});
        w.refuse("compare with junk", {"compare", "junk", "a.bpak"});
        w.refuse("compare with nothing", {"compare", "a.bpak", "missing"});
    }
}

// ------------------------------------------------------------------ C30
static const Bytes KS_UUID = {0x5d, 0xf1, 0x03, 0xef, 0xe7, 0x74, 0x45, 0x0b, 0x95, 0xc5, 0x1f, 0xef, 0x51, 0xce, 0xec, 0x28};
struct KeyEnt {
    uint32_t id;
    std::string name;
    Bytes der;
};
static int kind_of(const std::string &k) { return k.compare(0, 4, "p256") == 0 ? BPAK_KEY_PUB_PRIME256v1 : k.compare(0, 4, "p384") == 0 ? BPAK_KEY_PUB_SECP384r1
                                                : k.compare(0, 4, "p521") == 0 ? BPAK_KEY_PUB_SECP521r1 : BPAK_KEY_PUB_RSA4096; }
static const char *kind_name(int k)
{
    return k == BPAK_KEY_PUB_PRIME256v1 ? "BPAK_KEY_PUB_PRIME256v1" : k == BPAK_KEY_PUB_SECP384r1 ? "BPAK_KEY_PUB_SECP384r1"
         : k == BPAK_KEY_PUB_SECP521r1 ? "BPAK_KEY_PUB_SECP521r1" : "BPAK_KEY_PUB_RSA4096";
}
struct KsCase {
    Arc a;
    std::vector<KeyEnt> keys;
    uint32_t prov = 0;
    std::string name, cname;
    bool decorate = false;
    const char *why = nullptr;
    Argv av;
};
static KsCase make_ks(Case &c, bool allow_bad)
{
    Gen &g = c.g;
    KsCase k;
    k.prov = (uint32_t)g.draw(1ull << 32);
    size_t n = (size_t)(g.chance(10) ? g.range(0, 32) : g.range(0, 5));
    Bytes pv(4);
    ref::put(pv, 0, 4, k.prov);
    std::vector<MMeta> ms = {{ID_PACKAGE, 0, KS_UUID}, {ID_KEYSTORE_PROVIDER, 0, pv}};
    if (g.flip())
        std::swap(ms[0], ms[1]);
    if (g.chance(30))
        ms.insert(ms.begin() + (long)g.below(3), MMeta{0x44, 0, g.content((size_t)g.range(0, 50))});
    k.a.metas = ms;
    for (size_t i = 0; i < n; i++) {
        KeyEnt e;
        e.id = g.chance(50) ? ref::id(strf("key%zu", i)) : 1 + (uint32_t)i;
        e.name = KEYS[g.below(8)];
        e.der = slurp(keydir() + e.name + ".pub.der");
        k.a.add(e.id, e.der, g.chance(15) ? 1 : 0);
        k.keys.push_back(e);
    }
    static const char *NM[] = {"test", "internal", "a-b-c", "x_1", "my-key-store", "-", "A"};
    k.name = NM[g.below(7)];
    if (k.name == "-")
        k.name = "n-";
    k.cname = k.name;
    for (auto &ch : k.cname)
        if (ch == '-')
            ch = '_';
    k.decorate = g.chance(30);
    if (allow_bad) {
        switch (g.below(9)) {
        case 0:
            for (size_t i = 0; i < k.a.metas.size(); i++)
                if (k.a.metas[i].id == ID_PACKAGE)
                    k.a.metas.erase(k.a.metas.begin() + (long)i);
            k.why = "no package id";
            break;
        case 1:
            for (size_t i = 0; i < k.a.metas.size(); i++)
                if (k.a.metas[i].id == ID_KEYSTORE_PROVIDER)
                    k.a.metas.erase(k.a.metas.begin() + (long)i);
            k.why = "no provider id";
            break;
        case 2:
            for (auto &m : k.a.metas)
                if (m.id == ID_PACKAGE)
                    m.data[(size_t)g.below(16)] ^= (uint8_t)(1u << g.below(8));
            k.why = "package id is not the keystore's";
            break;
        case 3:
            for (auto &m : k.a.metas)
                if (m.id == ID_PACKAGE)
                    m.data.resize((size_t)g.range(0, 15));
            k.why = "short package id";
            break;
        case 4:
            for (auto &m : k.a.metas)
                if (m.id == ID_KEYSTORE_PROVIDER)
                    m.data.resize((size_t)g.range(0, 3));
            k.why = "short provider id";
            break;
        case 5: {
            static const char *B[] = {"bad_k256.pub.der", "bad_rsa2048.pub.der", "bad_ed.pub.der", "bad_p224.pub.der", "bad_bp256.pub.der", "p256a.key.der"};
            k.a.add(0x8888, slurp(keydir() + B[g.below(6)]), 0);
            if (g.flip())
                std::rotate(k.a.parts.begin(), k.a.parts.end() - 1, k.a.parts.end());
            k.why = "unsupported key";
            break;
        }
        case 6:
            k.a.add(0x8888, g.content((size_t)(g.chance(30) ? g.range(4000, 9000) : g.range(0, 700))), 0);
            if (g.flip())
                std::rotate(k.a.parts.begin(), k.a.parts.end() - 1, k.a.parts.end());
            k.why = "part is not a key";
            break;
        case 7:
            if (k.a.parts.empty())
                k.a.add(0x8888, slurp(keydir() + "p256a.pub.der"), 0);
            k.a.parts[g.below(k.a.parts.size())].size -= 1;
            for (auto &p : k.a.parts)
                p.pad = (uint16_t)(p.stored.size() - p.size);
            k.why = "cut key";
            break;
        default: k.why = "truncated file"; break;
        }
    }
    k.a.update_hash();
    Line l(g);
    l.arg("keystore").arg("ks.bpak").opt('n', "name", k.name);
    if (k.decorate)
        l.flag('d', "decorate");
    k.av = l.build("generate", false);
    c.log("keystore with %zu keys, provider %08x%s%s\n", n, k.prov, k.why ? ", " : "", k.why ? k.why : "");
    return k;
}
static std::vector<std::string> ctoks(const std::string &s)
{
    std::vector<std::string> t;
    for (size_t i = 0; i < s.size();) {
        if (isspace((unsigned char)s[i]))
            i++;
        else if (s.compare(i, 2, "/*") == 0) {
            size_t e = s.find("*/", i);
            i = e == std::string::npos ? s.size() : e + 2;
        } else if (s[i] == '#') {
            size_t e = s.find('\n', i);
            t.push_back(s.substr(i, e - i));
            i = e == std::string::npos ? s.size() : e;
        } else if (isalnum((unsigned char)s[i]) || s[i] == '_') {
            size_t e = i;
            while (e < s.size() && (isalnum((unsigned char)s[e]) || s[e] == '_'))
                e++;
            t.push_back(s.substr(i, e - i));
            i = e;
        } else if (s[i] == '"') {
            size_t e = s.find('"', i + 1);
            t.push_back(s.substr(i, e - i + 1));
            i = e == std::string::npos ? s.size() : e + 1;
        } else
            t.push_back(std::string(1, s[i++]));
    }
    return t;
}
static uint64_t num(const std::string &s)
{
    char *e;
    uint64_t v = strtoull(s.c_str(), &e, 0);
    if (s.empty() || *e)
        FAILF("generated code: '%s' is not a number", s.c_str());
    return v;
}
static void gen_text(Case &c)
{
    World27 w(c);
    KsCase k = make_ks(c, c.g.chance(35));
    Bytes f = k.a.build();
    if (k.why && !strcmp(k.why, "truncated file")) {
        if (k.keys.empty())
            f.resize((size_t)c.g.below(4096));
        else {
            size_t lastkey = k.a.parts.back().stored.size() - k.keys.back().der.size();
            f.resize(f.size() - lastkey - (size_t)c.g.range(1, k.keys.back().der.size()));
        }
    }
    w.raw("ks.bpak", f);
    Res r = w.go(k.av);
    w.compare(join(k.av));
    std::string def = "keystore_" + k.cname;
    auto t = ctoks(r.out);
    bool defines = false;
    for (size_t i = 0; i + 1 < t.size(); i++)
        if (t[i] == "bpak_keystore" && t[i + 1] == def)
            defines = true;
    if (k.why) {
        c.nontrivial();
        c.label(std::string("refused: ") + k.why);
        CHECK(!r.ok(), "'bpak %s' (%s) reported success", join(k.av).c_str(), k.why);
        CHECK(!defines, "'bpak %s' failed (%s) but printed a keystore", join(k.av).c_str(), k.why);
        return;
    }
    CHECK(r.ok(), "'bpak %s' failed: %s", join(k.av).c_str(), r.err.c_str());
    if (k.keys.size() >= 1)
        c.nontrivial();
    c.label(strf("%zu keys%s", std::min<size_t>(k.keys.size(), 6), k.decorate ? ", decorated" : ""));
    // parse the generated code
    size_t i = 0;
    auto need = [&](const std::string &x) {
        CHECK(i < t.size() && t[i] == x, "generated code: found '%s' instead of '%s'", i < t.size() ? t[i].c_str() : "end", x.c_str());
        i++;
    };
    auto next = [&] {
        CHECK(i < t.size(), "generated code ends early");
        return t[i++];
    };
    std::vector<std::string> incs;
    while (i < t.size() && t[i][0] == '#')
        incs.push_back(t[i++]);
    CHECK(incs.size() >= 2, "generated code: includes missing");
    auto decor = [&](const char *sec) {
        if (k.decorate) {
            for (const char *x : {"__attribute__", "(", "(", "section", "("})
                need(x);
            need(strf("\"%s\"", sec));
            for (const char *x : {")", ")", ")"})
                need(x);
        }
    };
    for (size_t n = 0; n < k.keys.size(); n++) {
        const KeyEnt &e = k.keys[n];
        for (const char *x : {"const", "struct", "bpak_key"})
            need(x);
        need(strf("%s_key%zu", def.c_str(), n));
        decor(".keystore_key");
        for (const char *x : {"=", "{"})
            need(x);
        std::set<std::string> seen;
        while (i < t.size() && t[i] == ".") {
            i++;
            std::string fld = next();
            CHECK(seen.insert(fld).second, "generated code: field %s twice", fld.c_str());
            need("=");
            if (fld == "id") {
                uint64_t v = num(next());
                CHECK(v == e.id, "key %zu has id 0x%llx, expected 0x%x", n, (unsigned long long)v, e.id);
            } else if (fld == "size") {
                uint64_t v = num(next());
                CHECK(v == e.der.size(), "key %zu has size %llu, expected %zu", n, (unsigned long long)v, e.der.size());
            } else if (fld == "kind") {
                std::string s = next();
                CHECK(s == kind_name(kind_of(e.name)), "key %zu has kind %s, expected %s", n, s.c_str(), kind_name(kind_of(e.name)));
            } else if (fld == "data") {
                need("{");
                Bytes d;
                while (i < t.size() && t[i] != "}") {
                    uint64_t v = num(next());
                    CHECK(v < 256, "generated code: byte %llu", (unsigned long long)v);
                    d.push_back((uint8_t)v);
                    if (i < t.size() && t[i] == ",")
                        i++;
                }
                need("}");
                CHECK(d == e.der, "key %zu has other bytes: %s", n, diff_desc(d, e.der).c_str());
            } else
                FAILF("generated code: unknown field %s", fld.c_str());
            if (i < t.size() && t[i] == ",")
                i++;
        }
        CHECK(seen.size() == 4, "key %zu: only %zu fields", n, seen.size());
        need("}");
        need(";");
    }
    for (const char *x : {"const", "struct", "bpak_keystore"})
        need(x);
    need(def);
    decor(".keystore_header");
    for (const char *x : {"=", "{"})
        need(x);
    std::set<std::string> seen;
    while (i < t.size() && t[i] == ".") {
        i++;
        std::string fld = next();
        seen.insert(fld);
        need("=");
        if (fld == "id") {
            uint64_t v = num(next());
            CHECK(v == k.prov, "keystore id is 0x%llx, expected 0x%x", (unsigned long long)v, k.prov);
        } else if (fld == "no_of_keys") {
            uint64_t v = num(next());
            CHECK(v == k.keys.size(), "keystore counts %llu keys, expected %zu", (unsigned long long)v, k.keys.size());
        } else if (fld == "verified")
            need("true");
        else if (fld == "keys") {
            need("{");
            for (size_t n = 0; n < k.keys.size(); n++) {
                while (i < t.size() && t[i] != "&")
                    i++;
                need("&");
                need(strf("%s_key%zu", def.c_str(), n));
                if (i < t.size() && t[i] == ",")
                    i++;
            }
            need("}");
        } else
            FAILF("generated code: unknown field %s", fld.c_str());
        if (i < t.size() && t[i] == ",")
            i++;
    }
    CHECK(seen.size() == 4, "keystore: fields missing");
    need("}");
    need(";");
    CHECK(i == t.size(), "generated code: trailing '%s'", t[i].c_str());
}
// the generated code through the compiler
static void gen_compile(Case &c)
{
    World27 w(c);
    KsCase k = make_ks(c, false);
    w.put("ks.bpak", k.a);
    Res r = w.go(k.av);
    CHECK(r.ok(), "'bpak %s' failed: %s", join(k.av).c_str(), r.err.c_str());
    std::string src = c.path("ks.c"), so = c.path("ks.so"), log = c.path("cc.log");
    write_file(src, Bytes(r.out.begin(), r.out.end()));
    const char *repo = getenv("BPAK_REPO"), *inc = getenv("BPAK_INC");
    std::string cmd = strf("gcc -std=gnu99 -shared -fPIC -Wall -Werror -Wextra -I%s/include -I%s -o %s %s >%s 2>&1", repo ? repo : "/repo", inc ? inc : ".",
                           so.c_str(), src.c_str(), log.c_str());
    int rc = system(cmd.c_str());
    if (rc != 0) {
        Bytes l = slurp(log);
        FAILF("the generated code does not compile: %s", std::string(l.begin(), l.begin() + (long)std::min<size_t>(l.size(), 1500)).c_str());
    }
    c.nontrivial();
    void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    CHECK(h, "harness: dlopen: %s", dlerror());
    bpak_keystore *ks = (bpak_keystore *)dlsym(h, ("keystore_" + k.cname).c_str());
    CHECK(ks, "the compiled code does not define keystore_%s", k.cname.c_str());
    CHECK(ks->id == k.prov && ks->no_of_keys == k.keys.size() && ks->verified, "compiled keystore: id 0x%x, %u keys, verified %d; expected 0x%x, %zu, 1", ks->id,
          ks->no_of_keys, ks->verified, k.prov, k.keys.size());
    for (size_t i = 0; i < k.keys.size(); i++) {
        const KeyEnt &e = k.keys[i];
        bpak_key *q = ks->keys[i];
        CHECK(q->id == e.id && q->kind == kind_of(e.name) && q->size == e.der.size(), "compiled key %zu: id 0x%x kind %d size %u, expected 0x%x, %d, %zu", i,
              q->id, q->kind, q->size, e.id, kind_of(e.name), e.der.size());
        CHECK(memcmp(q->data, e.der.data(), e.der.size()) == 0, "compiled key %zu has other bytes", i);
        bpak_key *o = nullptr;
        CHECK(bpak_keystore_get(ks, e.id, &o) == BPAK_OK && o && o->id == e.id, "key 0x%x cannot be looked up in the compiled keystore", e.id);
    }
    bpak_key *o = nullptr;
    CHECK(bpak_keystore_get(ks, 0xfffffffe, &o) != BPAK_OK || o == nullptr || o->id == 0xfffffffe, "look-up of an unknown key succeeded");
    dlclose(h);
}

static const std::vector<Prop> props = {
    {"C27", "history", history, 3000, 60000,
     "histories of 1-14 command lines (create, add, delete, extract, set, sign, verify, transport, show, compare, generate) with options in random spelling and "
     "order, on good and bad files, compared with the archive model after every command; non-trivial: at least two commands took effect", 120},
    {"C27", "transport", transport27, 1200, 12000,
     "transport --encode and --decode of generated archive pairs: encoded file as the codings prescribe, decoded file identical to the input; non-trivial: a "
     "part is delta coded or regenerated", 120},
    {"C28", "values", values, 6000, 60000,
     "1-6 add/set commands with generated text, integer, uuid and id values, valid and invalid, from strings and files; file compared with the model, value "
     "shown and extracted; non-trivial: at least one value stored", 120},
    {"C28", "show", show_all, 1500, 15000,
     "complete listing of generated archives with all documented metadata kinds compared line by line; non-trivial: archive has metadata and parts", 120},
    {"C29", "pairs", compare29, 3000, 30000,
     "pairs of archives made by editing one of them, compared in both directions and with a copy; non-trivial: they differ", 120},
    {"C30", "text", gen_text, 5000, 50000,
     "generated C code of keystores with 0-32 keys of all kinds, parsed by an own parser; and files that are not usable keystores; non-trivial: at least one key "
     "or a refusal", 120},
    {"C30", "compile", gen_compile, 120, 1200, "generated C code compiled by gcc, loaded and looked up; non-trivial: compiled", 120},
};
PBT_MAIN(props)
