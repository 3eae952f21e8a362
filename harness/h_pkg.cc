// C01 history model, C02 file image, C03 hashes, C04 refused operations.
#include "model.hh"
extern "C" {
#include <bpak/bpak.h>
#include <bpak/pkg.h>
#include <bpak/verify.h>
#include <bpak/id.h>
#include <bpak/crypto.h>
}
using namespace pbt;
using namespace model;

enum { W_LIST = 1, W_IMAGE = 2, W_HASH = 4, W_REFUSE = 8 };

static const char *NAMES[] = {"fs", "kernel", "fs-hash-tree", "a", "boot", "data-1", "kernel-hash-tree", "a rather long part name with spaces",
                              "0x1234", "\xc3\xa5\xc3\xa4"};
static const char *KEYF[] = {"p256a.pub.der", "p256a.pub.pem", "p384a.pub.der", "p384b.pub.pem", "p521a.pub.pem", "p521b.pub.der", "rsaa.pub.pem",
                             "rsab.pub.der"};
static const char *BADKEYF[] = {"bad_k256.pub.pem", "bad_rsa2048.pub.der", "bad_ed.pub.pem", "bad_p224.pub.der", "p256a.key.pem", "nosuchfile",
                                "junk"};
struct Sut {
    bpak_package *pkg;
    std::string file;
    Sut() { pkg = (bpak_package *)calloc(1, sizeof *pkg); }
    ~Sut()
    {
        bpak_pkg_close(pkg);
        free(pkg);
    }
};

struct Hist {
    Case &c;
    Gen &g;
    Sut s;
    Arc m;
    unsigned what;
    unsigned muts = 0, dels = 0, refused = 0, extracts = 0, trees = 0, reopens = 0;
    int nfile = 0;
    Hist(Case &c_, unsigned w) : c(c_), g(c_.g), what(w) {}

    std::string name()
    {
        size_t k = g.weighted({6, 2});
        if (k == 0)
            return NAMES[g.below(10)];
        return strf("part%u", (unsigned)g.below(40));
    }
    Bytes content(size_t max)
    {
        size_t n = (size_t)g.edge_size(max);
        Bytes b = g.content(n);
        return b;
    }
    std::string put_file(const Bytes &b)
    {
        std::string f = c.path(strf("in%d", nfile++ % 3));
        if (!write_file(f, b))
            throw Discard{};
        return f;
    }
    Bytes file_now()
    {
        if (s.pkg->fp)
            fflush(s.pkg->fp);
        return slurp(s.file);
    }
    Bytes hdr_now() { return Bytes((uint8_t *)&s.pkg->header, (uint8_t *)&s.pkg->header + 4096); }

    void compare_image(const Bytes &f, const char *when)
    {
        Bytes want = m.build();
        if (m.stale_tail && f.size() >= 4096) {
            size_t n = ref::hash_len(m.hash_kind);
            std::copy(f.begin() + ref::H_PHASH + (long)n, f.begin() + ref::H_KEYID, want.begin() + ref::H_PHASH + (long)n);
            memcpy(m.phash.data() + n, &f[ref::H_PHASH + n], 64 - n);
        }
        if (what & W_IMAGE)
            CHECK(f == want, "%s: the archive file is not the one the history determines: %s", when, cmp(f, want).c_str());
    }
    void compare_list(const Bytes &f, const char *when)
    {
        if (!(what & W_LIST))
            return;
        ref::Header h = ref::parse(f);
        CHECK(h.parts.size() == m.parts.size(), "%s: archive lists %zu parts, the history left %zu", when, h.parts.size(), m.parts.size());
        uint64_t off = 4096;
        for (size_t i = 0; i < h.parts.size(); i++) {
            const MPart &p = m.parts[i];
            CHECK(h.parts[i].id == p.id, "%s: part %zu is %08x, expected %08x", when, i, h.parts[i].id, p.id);
            CHECK(h.parts[i].size == p.size && (h.parts[i].flags & 3) == (p.flags & 3), "%s: part %zu has size %llu flags %u, expected %llu, %u", when, i,
                  (unsigned long long)h.parts[i].size, h.parts[i].flags, (unsigned long long)p.size, p.flags);
            Bytes d = p.data();
            CHECK(off + d.size() <= f.size(), "%s: part %zu (%08x) reaches beyond the end of the file", when, i, p.id);
            CHECK(std::equal(d.begin(), d.end(), f.begin() + (long)off), "%s: contents of part %zu (%08x, %zu bytes) changed", when, i, p.id, d.size());
            off += p.stored.size();
        }
        CHECK(h.metas.size() == m.metas.size(), "%s: archive lists %zu metadata entries, the history left %zu", when, h.metas.size(), m.metas.size());
        for (size_t i = 0; i < h.metas.size(); i++)
            CHECK(h.metas[i].id == m.metas[i].id && h.metas[i].ref == m.metas[i].ref && h.metas[i].data == m.metas[i].data,
                  "%s: metadata entry %zu (%08x/%08x) is not the one the history left", when, i, m.metas[i].id, m.metas[i].ref);
    }
    void compare_hash(const Bytes &f, const char *when)
    {
        if (!(what & W_HASH))
            return;
        size_t n = ref::hash_len(m.hash_kind);
        Bytes ph = ref::payload_hash(f);
        CHECK(ph.size() == n, "%s: payload shorter than the part table says", when);
        CHECK(std::equal(ph.begin(), ph.end(), f.begin() + ref::H_PHASH), "%s: stored payload hash does not match the stored parts", when);
        CHECK(memcmp(s.pkg->header.payload_hash, ph.data(), n) == 0, "%s: payload hash of the loaded header does not match the stored parts", when);
    }
    void check_all(const char *when)
    {
        Bytes f = file_now();
        CHECK(f.size() >= 4096, "%s: archive file has only %zu bytes", when, f.size());
        compare_list(f, when);
        compare_hash(f, when);
        compare_image(f, when);
        if (what & (W_LIST | W_IMAGE))
            CHECK(memcmp(&s.pkg->header, f.data(), 4096) == 0, "%s: the loaded header and the header in the file differ", when);
    }
    // an operation that must be refused, leaving everything as it was
    template <class F> void refuse(const char *desc, F f)
    {
        Bytes before = file_now(), hb = hdr_now();
        int rc = f();
        refused++;
        c.label(std::string("refused: ") + desc);
        if (what & (W_REFUSE | W_LIST))
            CHECK(rc < 0, "%s was not refused (returned %d)", desc, rc);
        if (rc >= 0)
            throw Discard{};
        if (what & (W_REFUSE | W_LIST)) {
            Bytes ha = hdr_now();
            CHECK(ha == hb, "refused operation (%s, %s) changed the loaded header: %s", desc, bpak_error_string(rc), cmp(ha, hb).c_str());
            Bytes after = file_now();
            CHECK(after == before, "refused operation (%s, %s) changed the archive file: %s", desc, bpak_error_string(rc), cmp(after, before).c_str());
        } else {
            // other properties: continue from the last consistent state
            Bytes after = file_now();
            if (after != before || hdr_now() != hb)
                throw Discard{};
        }
    }
    // salt and root hash of a tree that was just added: taken from the archive, checked against the reference
    void adopt_tree(uint32_t id, const Bytes &d, uint8_t flags)
    {
        Bytes f = file_now();
        ref::Header h = ref::parse(f);
        Bytes salt(32, 0);
        for (auto &x : h.metas)
            if (x.id == ID_SALT && x.ref == id)
                salt = x.data;
        m.add_with_tree(id, d, salt, flags);
        trees++;
    }
    void op_add(unsigned kind)
    {
        std::string nm = name();
        uint32_t id = ref::id(nm);
        uint8_t flags = g.chance(30) ? 1 : 0;
        bool dup = m.find(id) >= 0, full = m.parts.size() >= 32;
        if (kind == 0) {
            Bytes d = content(c.thorough ? 60000 : 14000);
            std::string f = put_file(d);
            c.log("add_file %s %zu bytes flags %u\n", nm.c_str(), d.size(), flags);
            auto op = [&] { return bpak_pkg_add_file(s.pkg, f.c_str(), nm.c_str(), flags); };
            if (dup || full) {
                refuse(dup ? "add_file duplicate" : "add_file to a full table", op);
                return;
            }
            int rc = op();
            CHECK(rc == BPAK_OK, "add_file(%s, %zu bytes) with %zu parts failed: %s", nm.c_str(), d.size(), m.parts.size(), bpak_error_string(rc));
            m.add(id, d, flags);
        } else if (kind == 1) {
            const char *kf = KEYF[g.below(8)];
            std::string der = keydir() + kf;
            size_t dot = der.rfind(".pub");
            Bytes d = slurp(der.substr(0, dot) + ".pub.der");
            c.log("add_key %s %s\n", nm.c_str(), kf);
            auto op = [&] { return bpak_pkg_add_key(s.pkg, (keydir() + kf).c_str(), nm.c_str(), flags); };
            if (dup || full) {
                refuse(dup ? "add_key duplicate" : "add_key to a full table", op);
                return;
            }
            int rc = op();
            CHECK(rc == BPAK_OK, "add_key(%s) failed: %s", kf, bpak_error_string(rc));
            m.add(id, d, flags);
        } else {
            size_t n;
            switch (g.weighted({12, 2, 1, 1})) {
            case 0: n = 4096 * (size_t)g.range(1, 4); break;
            case 1: n = 4096 * (size_t)g.range(5, 40); break;
            case 2: n = g.chance(30) ? 4096 * (size_t)g.range(126, 131) : 8192; break;
            default: n = (size_t)g.edge_size(9000);
            }
            Bytes d = g.content(n);
            std::string f = put_file(d);
            uint32_t tid = ref::tree_id(id);
            c.log("add_with_tree %s %zu bytes flags %u\n", nm.c_str(), n, flags);
            auto op = [&] { return bpak_pkg_add_file_with_merkle_tree(s.pkg, f.c_str(), nm.c_str(), flags); };
            const char *why = nullptr;
            if (dup)
                why = "add_tree duplicate";
            else if (n == 0 || n % 4096)
                why = "add_tree unsuitable length";
            else if (m.parts.size() >= 31)
                why = "add_tree to a full part table";
            else if (m.find(tid) >= 0)
                why = "add_tree tree part exists";
            else if (m.find_meta(ID_SALT, id) >= 0 || m.find_meta(ID_ROOT, id) >= 0)
                why = "add_tree salt or root metadata exists";
            else if (m.metas.size() > 30 || m.meta_used() + 64 > 1920)
                why = "add_tree no metadata space";
            if (why) {
                refuse(why, op);
                return;
            }
            int rc = op();
            CHECK(rc == BPAK_OK, "add_file_with_merkle_tree(%s, %zu bytes) failed: %s", nm.c_str(), n, bpak_error_string(rc));
            adopt_tree(id, d, flags);
        }
        m.update_hash();
        muts++;
    }
    void op_bad_add()
    {
        std::string nm = strf("new%u", (unsigned)g.below(50));
        if (m.find(ref::id(nm)) >= 0)
            return;
        switch (g.below(7)) {
        case 5: { // the id of an empty name is 0, which marks unused entries
            unsigned k = (unsigned)g.below(3);
            std::string f = k == 2 ? keydir() + KEYF[0] : put_file(Bytes(4096, 0x31));
            refuse("add with an empty name", [&] {
                return k == 0 ? bpak_pkg_add_file(s.pkg, f.c_str(), "", 0)
                     : k == 1 ? bpak_pkg_add_file_with_merkle_tree(s.pkg, f.c_str(), "", 0)
                              : bpak_pkg_add_key(s.pkg, f.c_str(), "", 0);
            });
            break;
        }
        case 0: {
            std::string f = c.path("does-not-exist");
            refuse("add_file missing input", [&] { return bpak_pkg_add_file(s.pkg, f.c_str(), nm.c_str(), 0); });
            break;
        }
        case 1: {
            std::string f = c.path("does-not-exist");
            refuse("add_tree missing input", [&] { return bpak_pkg_add_file_with_merkle_tree(s.pkg, f.c_str(), nm.c_str(), 0); });
            break;
        }
        case 2: {
            std::string f = c.path("dir");
            mkdir(f.c_str(), 0700);
            // a directory cannot be read
            refuse("add_file directory", [&] { return bpak_pkg_add_file(s.pkg, f.c_str(), nm.c_str(), 0); });
            break;
        }
        case 3: {
            std::string f = c.path("dir");
            mkdir(f.c_str(), 0700);
            refuse("add_tree directory", [&] { return bpak_pkg_add_file_with_merkle_tree(s.pkg, f.c_str(), nm.c_str(), 0); });
            break;
        }
        default: {
            const char *k = BADKEYF[g.below(7)];
            std::string f = keydir() + k;
            if (!strcmp(k, "junk"))
                f = put_file(g.content((size_t)g.range(0, 700)));
            c.log("add_key bad %s\n", k);
            refuse("add_key unsupported", [&] { return bpak_pkg_add_key(s.pkg, f.c_str(), nm.c_str(), 0); });
        }
        }
    }
    void op_bad_other()
    {
        std::string nm = strf("missing%u", (unsigned)g.below(50));
        uint32_t id = ref::id(nm);
        switch (g.below(6)) {
        case 0:
            refuse("delete unknown part", [&] { return bpak_pkg_delete_part(s.pkg, id, g.flip()); });
            break;
        case 1: {
            std::string o = c.path("out-unknown");
            refuse("extract unknown part", [&] { return bpak_pkg_extract_file(s.pkg, id, o.c_str()); });
            CHECK(!exists(o), "extracting an unknown part created the output file");
            break;
        }
        case 2: {
            if (m.parts.empty())
                return;
            std::string o = c.path("no/such/dir/out");
            refuse("extract to impossible path", [&] { return bpak_pkg_extract_file(s.pkg, m.parts[0].id, o.c_str()); });
            break;
        }
        case 3: {
            Bytes big((size_t)g.range(513, 900), 0x77);
            refuse("oversized signature", [&] { return bpak_pkg_write_raw_signature(s.pkg, big.data(), big.size()); });
            break;
        }
        case 4: {
            std::string f = keydir() + BADKEYF[g.below(6)];
            if (f.find("p256a") != std::string::npos)
                f = put_file(g.content(300));
            refuse("sign with an unusable key", [&] { return bpak_pkg_sign(s.pkg, f.c_str()); });
            break;
        }
        default: {
            uint8_t h[64];
            refuse("hash of unknown part", [&] { return bpak_pkg_part_sha256(s.pkg, h, sizeof h, id); });
        }
        }
    }
    void op_delete()
    {
        if (m.parts.empty())
            return;
        size_t i = (size_t)g.below(m.parts.size());
        uint32_t id = m.parts[i].id;
        bool rm = g.flip();
        c.log("delete #%zu of %zu (%08x)%s\n", i, m.parts.size(), id, rm ? " with metadata" : "");
        int rc = bpak_pkg_delete_part(s.pkg, id, rm);
        CHECK(rc == BPAK_OK, "delete_part(%08x) failed: %s", id, bpak_error_string(rc));
        m.parts.erase(m.parts.begin() + (long)i);
        if (rm)
            m.drop_meta_of(id);
        m.update_hash();
        muts++;
        dels++;
    }
    void op_delete_all()
    {
        bool rm = g.flip();
        c.log("delete all%s\n", rm ? " with metadata" : "");
        int rc = bpak_pkg_delete_all_parts(s.pkg, rm);
        CHECK(rc == BPAK_OK, "delete_all_parts failed: %s", bpak_error_string(rc));
        m.parts.clear();
        if (rm)
            for (size_t i = 0; i < m.metas.size();)
                if (m.metas[i].ref)
                    m.metas.erase(m.metas.begin() + (long)i);
                else
                    i++;
        m.update_hash();
        muts++;
        dels++;
    }
    void op_meta()
    {
        if (g.chance(30) && !m.metas.empty()) {
            size_t i = (size_t)g.below(m.metas.size());
            bpak_meta_header *mh = nullptr;
            CHECK(bpak_get_meta(&s.pkg->header, m.metas[i].id, m.metas[i].ref, &mh) == BPAK_OK, "metadata entry %08x/%08x not found", m.metas[i].id,
                  m.metas[i].ref);
            c.log("del meta #%zu\n", i);
            bpak_del_meta(&s.pkg->header, mh);
            m.metas.erase(m.metas.begin() + (long)i);
        } else {
            uint32_t id = g.chance(20) ? g.pick<uint32_t>({ID_SALT, ID_ROOT}) : (uint32_t)g.range(1, 12);
            uint32_t rf = 0;
            switch (g.below(3)) {
            case 0: rf = 0; break;
            case 1: rf = m.parts.empty() ? ref::id(NAMES[0]) : m.parts[g.below(m.parts.size())].id; break;
            default: rf = ref::id(NAMES[g.below(10)]);
            }
            size_t left = m.meta_used() < 1920 ? 1920 - m.meta_used() : 0;
            size_t sz = (size_t)g.range(0, 48);
            if (g.chance(12))
                sz = left - std::min<size_t>(left, (size_t)g.below(80));
            else if (g.chance(10))
                sz = (size_t)g.range(0, 700);
            bool ok = m.find_meta(id, rf) < 0 && m.meta_fits(sz);
            c.log("add meta %x ref %x size %zu\n", id, rf, sz);
            bpak_meta_header *mh = nullptr;
            auto op = [&] { return bpak_add_meta(&s.pkg->header, id, rf, (uint16_t)sz, &mh); };
            if (!ok) {
                refuse("add_meta duplicate or no room", op);
                return;
            }
            int rc = op();
            CHECK(rc == BPAK_OK, "add_meta failed: %s", bpak_error_string(rc));
            Bytes d = g.content(sz);
            memcpy(bpak_get_meta_ptr(&s.pkg->header, mh, uint8_t), d.data(), sz);
            m.add_meta(id, rf, d);
        }
        CHECK(bpak_pkg_write_header(s.pkg) == BPAK_OK, "write_header failed");
        muts++;
    }
    void op_hash_kind()
    {
        uint8_t k = (uint8_t)g.range(1, 3);
        c.log("hash kind %u\n", k);
        if (ref::hash_len(k) < ref::hash_len(m.hash_kind))
            m.stale_tail = true;
        if (k == 3)
            m.stale_tail = false;
        m.hash_kind = k;
        s.pkg->header.hash_kind = k;
        CHECK(bpak_pkg_update_hash(s.pkg, NULL, NULL) == BPAK_OK, "update_hash failed");
        CHECK(bpak_pkg_write_header(s.pkg) == BPAK_OK, "write_header failed");
        m.update_hash();
    }
    void op_keyid()
    {
        m.key_id = (uint32_t)g.draw(1ull << 32);
        m.ks_id = (uint32_t)g.draw(1ull << 32);
        bpak_set_key_id(&s.pkg->header, m.key_id);
        bpak_set_keystore_id(&s.pkg->header, m.ks_id);
        CHECK(bpak_pkg_write_header(s.pkg) == BPAK_OK, "write_header failed");
    }
    void op_digest()
    {
        uint8_t out[64];
        size_t n = sizeof out;
        Bytes f0 = file_now();
        int rc = bpak_pkg_update_hash(s.pkg, (char *)out, &n);
        CHECK(rc == BPAK_OK, "update_hash failed: %s", bpak_error_string(rc));
        if (what & W_HASH) {
            Bytes want = ref::header_digest(hdr_now());
            CHECK(n == want.size() && memcmp(out, want.data(), n) == 0, "reported header digest (%zu bytes) is not the hash of the header without signature", n);
            CHECK(file_now() == f0, "recomputing the hash changed the file");
            // a buffer that is too small is refused, not overrun
            size_t hl = ref::hash_len(m.hash_kind);
            uint8_t *small = (uint8_t *)malloc(hl - 1);
            size_t sn = hl - 1;
            rc = bpak_verify_compute_header_hash(&s.pkg->header, small, &sn);
            (void)rc;
            free(small);
        }
    }
    void op_raw_sig()
    {
        m.sig = g.content((size_t)g.range(0, 512));
        CHECK(bpak_pkg_write_raw_signature(s.pkg, m.sig.data(), m.sig.size()) == BPAK_OK, "write_raw_signature of %zu bytes failed", m.sig.size());
    }
    void op_extract()
    {
        if (m.parts.empty())
            return;
        const MPart &p = m.parts[g.below(m.parts.size())];
        std::string o = c.path("out");
        if (g.flip())
            write_file(o, Bytes((size_t)g.range(0, 20000), 0xee)); // an older, maybe longer file is replaced
        Bytes f0 = file_now();
        int rc = bpak_pkg_extract_file(s.pkg, p.id, o.c_str());
        c.log("extract %08x\n", p.id);
        extracts++;
        if (what & W_LIST) {
            CHECK(rc == BPAK_OK, "extracting part %08x (%llu bytes) failed: %s", p.id, (unsigned long long)p.size, bpak_error_string(rc));
            Bytes got = slurp(o), d = p.data();
            CHECK(got == d, "extracted part %08x differs from what was added: %s", p.id, diff_desc(got, d).c_str());
            uint8_t h[32];
            rc = bpak_pkg_part_sha256(s.pkg, h, sizeof h, p.id);
            CHECK(rc == BPAK_OK && Bytes(h, h + 32) == ref::sha256(d), "part_sha256 of %08x is wrong (%d)", p.id, rc);
            CHECK(file_now() == f0, "extracting changed the archive");
        }
    }
    void op_reopen()
    {
        c.log("reopen\n");
        CHECK(bpak_pkg_close(s.pkg) == BPAK_OK, "close failed");
        check_file_closed();
        int rc = bpak_pkg_open(s.pkg, s.file.c_str(), g.flip() ? "rb+" : "r+");
        CHECK(rc == BPAK_OK, "the archive cannot be reopened: %s", bpak_error_string(rc));
        reopens++;
    }
    void check_file_closed()
    {
        Bytes f = slurp(s.file);
        compare_list(f, "after closing");
        compare_image(f, "after closing");
        CHECK(ref::payload_hash(f).size() || !(what & W_HASH), "payload shorter than the part table says");
    }
    void start()
    {
        s.file = c.path("a.bpak");
        if (g.chance(15)) { // start from an archive that holds transport encoded parts
            size_t n = (size_t)g.range(1, 4);
            for (size_t i = 0; i < n; i++) {
                uint8_t fl = g.chance(30) ? 1 : 0;
                uint32_t id = ref::id(NAMES[i]);
                if (g.flip())
                    m.add_encoded(id, g.edge_size(20000), g.content((size_t)g.edge_size(6000)), fl);
                else
                    m.add(id, content(6000), fl);
            }
            m.update_hash();
            write_file(s.file, m.build());
            c.log("start from an encoded archive with %zu parts\n", n);
            c.label("started with encoded parts");
            int rc = bpak_pkg_open(s.pkg, s.file.c_str(), "rb+");
            CHECK(rc == BPAK_OK, "opening a valid archive failed: %s", bpak_error_string(rc));
        } else {
            int rc = bpak_pkg_open(s.pkg, s.file.c_str(), "wb+");
            CHECK(rc == BPAK_OK, "creating an archive failed: %s", bpak_error_string(rc));
            m.update_hash();
        }
    }
    void run()
    {
        start();
        size_t nops = (size_t)g.range(1, 26);
        bool eager = g.flip();          // look at the file after every operation, or only now and then
        bool crowd = g.chance(25);      // fill the part table with small parts
        bool metacrowd = g.chance(15);
        for (size_t k = 0; k < nops; k++) {
            bool bad = what & W_REFUSE;
            switch (g.weighted({8, 3, 4, 4, 1, 4, 1, 1, 2, 1, 3, 3, bad ? 5u : 1u, bad ? 3u : 1u, crowd ? 6u : 0u, metacrowd ? 6u : 0u})) {
            case 0: op_add(0); break;
            case 1: op_add(1); break;
            case 2: op_add(2); break;
            case 3: op_delete(); break;
            case 4: op_delete_all(); break;
            case 5: op_meta(); break;
            case 6: op_hash_kind(); break;
            case 7: op_keyid(); break;
            case 8: op_digest(); break;
            case 9: op_raw_sig(); break;
            case 10: op_extract(); break;
            case 11: op_reopen(); break;
            case 12: op_bad_add(); break;
            case 13: op_bad_other(); break;
            case 14: { // many small parts
                Bytes d = g.content((size_t)g.range(0, 600));
                std::string f = put_file(d);
                size_t n = (size_t)g.range(1, 31);
                c.log("add %zu small parts\n", n);
                for (size_t i = 0; i < n && m.parts.size() < 32; i++) {
                    std::string nm = strf("small%zu", i);
                    if (m.find(ref::id(nm)) >= 0)
                        continue;
                    int rc = bpak_pkg_add_file(s.pkg, f.c_str(), nm.c_str(), 0);
                    CHECK(rc == BPAK_OK, "adding part number %zu failed: %s", m.parts.size() + 1, bpak_error_string(rc));
                    m.add(ref::id(nm), d, 0);
                }
                m.update_hash();
                break;
            }
            default: { // many metadata entries
                size_t n = (size_t)g.range(1, 31), sz = g.flip() ? 4 : (size_t)g.range(0, 100);
                c.log("add %zu metadata entries of %zu\n", n, sz);
                uint32_t rf = m.parts.empty() ? 0 : m.parts[g.below(m.parts.size())].id;
                for (size_t i = 0; i < n && m.meta_fits(sz); i++) {
                    uint32_t id = 0x100 + (uint32_t)i;
                    if (m.find_meta(id, rf) >= 0)
                        continue;
                    bpak_meta_header *mh = nullptr;
                    int rc = bpak_add_meta(&s.pkg->header, id, rf, (uint16_t)sz, &mh);
                    CHECK(rc == BPAK_OK, "add_meta failed: %s", bpak_error_string(rc));
                    memset(bpak_get_meta_ptr(&s.pkg->header, mh, uint8_t), 0x40 + (int)i, sz);
                    m.add_meta(id, rf, Bytes(sz, (uint8_t)(0x40 + i)));
                }
                CHECK(bpak_pkg_write_header(s.pkg) == BPAK_OK, "write_header failed");
            }
            }
            if (eager)
                check_all("after the last operation");
        }
        check_all("at the end");
        if (what & W_LIST)
            for (auto &p : m.parts) {
                std::string o = c.path("out");
                int rc = bpak_pkg_extract_file(s.pkg, p.id, o.c_str());
                CHECK(rc == BPAK_OK, "extracting part %08x failed: %s", p.id, bpak_error_string(rc));
                Bytes got = slurp(o), d = p.data();
                CHECK(got == d, "extracted part %08x differs from what was added: %s", p.id, diff_desc(got, d).c_str());
            }
        op_reopen();
        check_all("after reopening");
        if (dels)
            c.label("with deletions");
        if (trees)
            c.label("with hash trees");
    }
};

static void c01(Case &c)
{
    Hist h(c, W_LIST);
    h.run();
    if (h.muts >= 3 && h.dels)
        c.nontrivial();
}
static void c02(Case &c)
{
    Hist h(c, W_IMAGE);
    h.run();
    if (h.muts >= 3 && h.m.parts.size() + h.m.metas.size() >= 2)
        c.nontrivial();
}
static void c03(Case &c)
{
    Hist h(c, W_HASH);
    h.run();
    // metamorphic: excluded bytes do not matter, every included byte does
    Gen &g = c.g;
    Bytes f = h.file_now();
    bpak_pkg_close(h.s.pkg);
    bool ex = false, in = false;
    for (size_t rep = 0; rep < 3 && !h.m.parts.empty(); rep++) {
        uint64_t off = 4096;
        size_t k = (size_t)g.below(h.m.parts.size());
        for (size_t i = 0; i < k; i++)
            off += h.m.parts[i].stored.size();
        const MPart &p = h.m.parts[k];
        if (p.stored.empty())
            continue;
        Bytes f2 = f;
        uint64_t at = off + g.below(p.stored.size());
        f2[at] = (uint8_t)(f2[at] ^ (1u << g.below(8)));
        write_file(h.s.file, f2);
        CHECK(bpak_pkg_open(h.s.pkg, h.s.file.c_str(), "rb") == BPAK_OK, "open failed");
        CHECK(bpak_pkg_update_hash(h.s.pkg, NULL, NULL) == BPAK_OK, "update_hash failed");
        bool same = memcmp(h.s.pkg->header.payload_hash, &f[ref::H_PHASH], 64) == 0;
        bpak_pkg_close(h.s.pkg);
        if (p.flags & 1) {
            ex = true;
            CHECK(same, "changing byte %llu of the excluded part %08x changed the payload hash", (unsigned long long)(at - off), p.id);
        } else {
            in = true;
            CHECK(!same, "changing byte %llu of the included part %08x did not change the payload hash", (unsigned long long)(at - off), p.id);
        }
    }
    if (h.muts >= 2 && (ex || in))
        c.nontrivial();
    if (ex && in)
        c.label("both excluded and included parts altered");
}
static void c04(Case &c)
{
    Hist h(c, W_REFUSE);
    h.run();
    if (h.refused >= 2 && h.muts)
        c.nontrivial();
}

// ---- C03 through the callback interface: any header, any data offset
struct RdCtx {
    const Bytes *data;
    off_t base;
    std::string bad;
};
static ssize_t rd_cb(off_t off, uint8_t *buf, size_t n, void *u)
{
    RdCtx *r = (RdCtx *)u;
    if (off < r->base || (uint64_t)(off - r->base) + n > r->data->size()) {
        if (r->bad.empty())
            r->bad = strf("read of %zu bytes at %lld outside the payload", n, (long long)off);
        return -1;
    }
    memcpy(buf, r->data->data() + (off - r->base), n);
    return (ssize_t)n;
}
static void c03_cb(Case &c)
{
    Gen &g = c.g;
    Arc a;
    a.hash_kind = (uint8_t)g.range(1, 3);
    size_t n = (size_t)g.range(0, 6);
    unsigned inc = 0, exc = 0;
    for (size_t i = 0; i < n; i++) {
        uint8_t fl = g.chance(35) ? 1 : 0;
        (fl ? exc : inc)++;
        if (g.chance(30))
            a.add_encoded((uint32_t)i + 1, g.logsize(100000), g.content((size_t)g.edge_size(9000)), fl);
        else
            a.add((uint32_t)i + 1, g.content((size_t)g.edge_size(13000)), fl);
    }
    a.sig = g.content((size_t)g.range(0, 512));
    a.phash = g.content(64);
    Bytes hdr = a.header(), payload;
    for (auto &p : a.parts)
        payload.insert(payload.end(), p.stored.begin(), p.stored.end());
    off_t base = (off_t)g.pick<uint64_t>({4096, 0, 1, 512, 10000});
    RdCtx r{&payload, base, ""};
    bpak_header *h = (bpak_header *)malloc(4096);
    struct F { void *p; ~F() { free(p); } } fr{h};
    memcpy(h, hdr.data(), 4096);
    size_t hl = ref::hash_len(a.hash_kind);
    size_t cap = g.flip() ? hl : (size_t)g.range(hl, 64);
    uint8_t *out = (uint8_t *)malloc(cap);
    struct F fo{out};
    size_t sz = cap;
    c.log("%zu parts (%u included, %u excluded), hash kind %u, data offset %ld\n", n, inc, exc, a.hash_kind, (long)base);
    int rc = bpak_verify_compute_payload_hash(h, rd_cb, base, &r, out, &sz);
    CHECK(r.bad.empty(), "%s", r.bad.c_str());
    CHECK(rc == BPAK_OK, "payload hash failed: %s", bpak_error_string(rc));
    Bytes in;
    for (auto &p : a.parts)
        if (!(p.flags & 1))
            in.insert(in.end(), p.stored.begin(), p.stored.end());
    Bytes want = ref::hash(a.hash_kind, in);
    CHECK(sz == hl, "payload hash reports %zu bytes, expected %zu", sz, hl);
    CHECK(memcmp(out, want.data(), hl) == 0, "payload hash is not the hash of the included stored bytes");
    sz = cap;
    rc = bpak_verify_compute_header_hash(h, out, &sz);
    want = ref::header_digest(hdr);
    CHECK(rc == BPAK_OK && sz == hl && memcmp(out, want.data(), hl) == 0, "header digest is not the hash of the header with the signature zeroed (%d, %zu)", rc, sz);
    CHECK(memcmp(h, hdr.data(), 4096) == 0, "hashing changed the header");
    // too small a result buffer
    size_t small = (size_t)g.below(hl);
    uint8_t *sb = (uint8_t *)malloc(small ? small : 1);
    struct F fs{sb};
    sz = small;
    rc = bpak_verify_compute_payload_hash(h, rd_cb, base, &r, sb, &sz);
    CHECK(rc != BPAK_OK, "payload hash accepted a %zu byte buffer for a %zu byte digest", small, hl);
    sz = small;
    rc = bpak_verify_compute_header_hash(h, sb, &sz);
    CHECK(rc != BPAK_OK, "header digest accepted a %zu byte buffer for a %zu byte digest", small, hl);
    if (inc && (exc || n > 2))
        c.nontrivial();
}

static std::vector<Prop> props = {
    {"C01", "history", c01, 20000, 300000,
     "histories of 1-26 operations (add file/key/hash-tree file, delete one/all, metadata, hash kind, raw signature, extract, reopen, refused "
     "operations) against an archive model; parts, order, contents and metadata compared; non-trivial: three successful mutations including a deletion", 30},
    {"C02", "image", c02, 40000, 320000,
     "the same histories, whole file compared byte for byte with the image the model prescribes (salts read from the archive, trees and roots "
     "recomputed); non-trivial: three mutations and at least two parts or entries left", 30},
    {"C03", "history", c03, 15000, 300000,
     "the same histories, payload hash and header digest recomputed by reference code from the file, then single bits of parts flipped; non-trivial: "
     "two mutations and at least one flip", 30},
    {"C03", "callback", c03_cb, 60000, 500000,
     "generated headers and payloads hashed through the callback interface at various data offsets, exact-size result buffers; non-trivial: an "
     "included part and (an excluded part or more than two parts)", 30},
    {"C04", "refused", c04, 40000, 320000,
     "histories rich in refused operations, header and file compared before and after each; non-trivial: two refusals and a successful mutation", 30},
};
PBT_MAIN(props)
