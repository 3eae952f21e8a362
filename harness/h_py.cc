// C31 the Python API against the archive model; C32 misuse of the Python API; C25 failing storage seen from Python.
// PBT_NEEDS_PY PBT_LIB(crypto)
#include "py.hh"
#include "world.hh"
#include "hostgen.hh"
#include "ossl.hh"
#include <dirent.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
using namespace pbt;
using namespace model;
using namespace world;
using py::Ref;
using py::Res;

static const char *KEYS[] = {"p256a", "p256b", "p384a", "p384b", "p521a", "p521b", "rsaa", "rsab"};

static size_t open_fds()
{
    size_t n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (d && readdir(d))
        n++;
    if (d)
        closedir(d);
    return n;
}
static std::string fname(const std::string &p) { return p; }
static Ref path_value(Gen &g, const std::string &p)
{
    switch (g.weighted({6, 1, 1})) {
    case 0: return py::str(p);
    case 1: return py::bytes(Bytes(p.begin(), p.end()));
    default: return py::call(py::global("pathlib").o, "PurePosixPath", {py::str(p)}).v;
    }
}
// positional or by keyword, never a positional argument behind a keyword
static Res call_mixed(Gen &g, PyObject *o, const char *m, const py::Kw &kw)
{
    size_t npos = g.flip() ? kw.size() : (size_t)g.below(kw.size() + 1);
    py::Args a;
    py::Kw k;
    for (size_t i = 0; i < kw.size(); i++)
        if (i < npos && kw[i].second)
            a.push_back(kw[i].second);
        else {
            npos = 0;
            if (kw[i].second)
                k.push_back(kw[i]);
        }
    return py::call(o, m, a, k);
}

struct Hist {
    Case &c;
    Gen &g;
    std::string file, mode;
    Arc m;              // what the loaded header says
    bool unknown = false; // the payload hash in the file is not determined (hash kind changed, digest read)
    bool stale = false;   // the payload hash does not belong to the parts (hash kind changed)
    bool readonly = false, writeonly = false;
    Ref pkg;
    struct Hp {
        Ref o;
        uint32_t id;
    };
    struct Hm {
        Ref o;
        uint32_t id, ref;
    };
    std::vector<Hp> ph;
    std::vector<Hm> mh;
    int nin = 0;
    uint64_t changes = 0, refusals = 0;
    explicit Hist(Case &c_) : c(c_), g(c_.g) {}

    // ---- comparing
    Bytes canon(Bytes f, bool disk) const
    {
        if (f.size() < 4096)
            return f;
        size_t hl = ref::hash_len(m.hash_kind);
        if ((disk && unknown) || stale)
            hl = 0;
        for (size_t i = hl; i < 64; i++)
            f[ref::H_PHASH + i] = 0; // tail of another hash kind
        return f;
    }
    uint64_t num(PyObject *o, const char *a)
    {
        Res r = py::get(o, a);
        unsigned long long v = 0;
        CHECK(r.ok() && py::is_num(r.v.o, v), "%s: %s", a, r.ok() ? "not a number" : r.str().c_str());
        return v;
    }
    void look(const char *when)
    {
        PyObject *p = pkg.o;
        uint64_t v;
#define SAME(name, want) v = num(p, name); CHECK(v == (uint64_t)(want), "after %s: %s is %llu, expected %llu", when, name, (unsigned long long)v, (unsigned long long)(want))
        SAME("hash_kind", m.hash_kind);
        SAME("signature_kind", m.sig_kind);
        SAME("key_id", m.key_id);
        SAME("keystore_id", m.ks_id);
        uint64_t inst = 0, sz = 4096;
        for (auto &q : m.parts) {
            inst += q.size + q.pad;
            sz += q.flags & 2 ? q.stored.size() : q.size;
        }
        SAME("installed_size", inst);
        SAME("size", sz);
#undef SAME
        Res r = py::get(p, "signature");
        Bytes b;
        CHECK(r.ok() && py::is_bytes(r.v.o, b) && b == m.sig, "after %s: signature has %zu bytes, expected %zu (or other contents)", when, b.size(), m.sig.size());
        r = py::get(p, "parts");
        CHECK(r.ok() && PyList_Check(r.v.o), "after %s: parts: %s", when, r.str().c_str());
        CHECK((size_t)PyList_GET_SIZE(r.v.o) == m.parts.size(), "after %s: %zu parts, expected %zu", when, (size_t)PyList_GET_SIZE(r.v.o), m.parts.size());
        uint64_t off = 4096;
        for (size_t i = 0; i < m.parts.size(); i++) {
            PyObject *o = PyList_GET_ITEM(r.v.o, (Py_ssize_t)i);
            const MPart &q = m.parts[i];
            uint64_t id = num(o, "id"), s = num(o, "size"), of = num(o, "offset");
            CHECK(id == q.id && s == q.stored.size() && of == off, "after %s: part %zu is %08llx size %llu offset %llu, expected %08x size %zu offset %llu", when, i,
                  (unsigned long long)id, (unsigned long long)s, (unsigned long long)of, q.id, q.stored.size(), (unsigned long long)off);
            Res t = py::get(o, "is_transport_encoded");
            CHECK(t.ok() && t.v.o == (q.flags & 2 ? Py_True : Py_False), "after %s: part %zu: is_transport_encoded", when, i);
            off += q.stored.size();
        }
        r = py::get(p, "meta");
        CHECK(r.ok() && PyList_Check(r.v.o), "after %s: meta: %s", when, r.str().c_str());
        CHECK((size_t)PyList_GET_SIZE(r.v.o) == m.metas.size(), "after %s: %zu metadata entries, expected %zu", when, (size_t)PyList_GET_SIZE(r.v.o), m.metas.size());
        for (size_t i = 0; i < m.metas.size(); i++) {
            PyObject *o = PyList_GET_ITEM(r.v.o, (Py_ssize_t)i);
            meta_is(o, m.metas[i], when);
        }
    }
    void meta_is(PyObject *o, const MMeta &w, const char *when)
    {
        uint64_t id = num(o, "id"), rf = num(o, "part_id_ref"), s = num(o, "size");
        Bytes b;
        Res t = py::get(o, "raw_data");
        CHECK(t.ok() && py::is_bytes(t.v.o, b), "after %s: raw_data: %s", when, t.str().c_str());
        CHECK(id == w.id && rf == w.ref && s == w.data.size() && b == w.data, "after %s: metadata %08llx/%08llx size %llu holds %s, expected %08x/%08x size %zu with %s", when,
              (unsigned long long)id, (unsigned long long)rf, (unsigned long long)s, hexs(b.data(), std::min<size_t>(b.size(), 20)).c_str(), w.id, w.ref, w.data.size(),
              hexs(w.data.data(), std::min<size_t>(w.data.size(), 20)).c_str());
    }
    void on_disk(const char *when)
    {
        Bytes f = slurp(file);
        Bytes a = canon(f, true), b = canon(m.build(), true);
        CHECK(a == b, "after %s: the file: %s", when, cmp(a, b).c_str());
        if (f.size() >= 4096)
            m.phash.assign(f.begin() + ref::H_PHASH, f.begin() + ref::H_PHASH + 64);
        unknown = false;
        Bytes h = ref::payload_hash(f);
        stale = !std::equal(h.begin(), h.end(), m.phash.begin());
        m.stale_tail = true;
    }
    void hash_now() // an operation which computes the payload hash
    {
        m.update_hash();
        stale = unknown = false;
    }
    // ---- results
    bool took(const Res &r, bool must, const char *what) // true: it happened
    {
        if (readonly)
            must = false;
        c.log("%s -> %s\n", what, r.ok() ? "ok" : r.exc.c_str());
        if (r.ok()) {
            CHECK(must || (writeonly && !readonly), "%s succeeded", what);
            changes++;
            return true;
        }
        CHECK(!must || writeonly, "%s: %s", what, r.str().c_str());
        CHECK(r.exc != "SystemError" && r.exc != "MemoryError", "%s: %s", what, r.str().c_str());
        refusals++;
        return false;
    }
    // ---- opening and closing
    void open()
    {
        Res r = call_mixed(g, (PyObject *)py::get(py::mod, "Package").v.o, nullptr, {{"filename", path_value(g, file)}, {"mode", py::str(mode)}});
        CHECK(r.ok(), "opening with mode %s: %s", mode.c_str(), r.str().c_str());
        pkg = r.v;
        c.log("open %s\n", mode.c_str());
    }
    void close()
    {
        ph.clear();
        mh.clear();
        size_t how = g.below(3);
        Res r;
        if (how == 0)
            r = py::call(pkg.o, "close", {});
        else if (how == 1) {
            r = py::call(pkg.o, "__enter__", {});
            CHECK(r.ok() && r.v.o == pkg.o, "entering a context returns the package");
            r = py::call(pkg.o, "__exit__", {py::none(), py::none(), py::none()});
        }
        c.log("%s\n", how == 0 ? "close" : how == 1 ? "leave context" : "drop");
        CHECK(r.ok(), "closing: %s", r.str().c_str());
        r.v = Ref();
        CHECK(how == 2 || Py_REFCNT(pkg.o) == 1, "the package is still referenced %ld times", (long)Py_REFCNT(pkg.o) - 1);
        pkg = Ref();
        on_disk("close");
    }
    // ---- operations
    uint32_t some_part()
    {
        return !m.parts.empty() && g.chance(85) ? m.parts[g.below(m.parts.size())].id : 0xdead0000 + (uint32_t)g.below(3);
    }
    uint32_t some_id(const std::vector<uint32_t> &taken)
    {
        if (!taken.empty() && g.chance(25))
            return g.pick(taken);
        return g.chance(30) ? (uint32_t)g.draw(1ull << 32) : 0x100 + (uint32_t)g.below(40);
    }
    uint32_t fresh_id(uint32_t x) { return x ? x : 1; }
    void add_file()
    {
        std::string name = g.chance(80) ? strf("n%d", nin) : g.pick({"fs", "kernel", "n0", ""});
        uint32_t id = ref::id(name);
        bool tree = g.chance(25), wrong = false;
        size_t sz = tree && g.chance(85) ? 4096 * (size_t)g.range(1, 3) : (size_t)g.edge_size(c.thorough ? 40000 : 9000);
        std::string in = c.path(strf("in%d", nin++));
        Bytes d = g.content(sz);
        write_file(in, d);
        if (g.chance(5)) {
            in = c.path("missing");
            wrong = true;
        }
        bool room = id && m.parts.size() + (tree ? 2 : 1) <= 32 && m.find(id) < 0;
        bool must = room && !wrong;
        if (tree) {
            uint32_t tid = ref::tree_id(id);
            bool metas = m.find_meta(ID_SALT, id) < 0 && m.find_meta(ID_ROOT, id) < 0 && m.metas.size() + 2 <= 32 && m.meta_used() + 64 <= 1920;
            must = must && metas && m.find(tid) < 0 && sz > 0 && sz % 4096 == 0;
        }
        py::Kw kw = {{"part_name", py::str(name)}, {"filename", path_value(g, in)}};
        if (tree || g.chance(30))
            kw.push_back({"with_merkle_tree", tree ? (g.flip() ? py::boolean(true) : py::num(7)) : py::boolean(false)});
        Res r = call_mixed(g, pkg.o, "add_file", kw);
        if (took(r, must, strf("add_file(%s, %zu bytes%s)", name.c_str(), sz, tree ? ", tree" : "").c_str())) {
            if (tree) {
                Res s = py::call(pkg.o, "get_meta", {py::num(ID_SALT), py::num(id)});
                Bytes salt;
                CHECK(s.ok(), "no salt: %s", s.str().c_str());
                s = py::get(s.v.o, "raw_data");
                CHECK(s.ok() && py::is_bytes(s.v.o, salt) && salt.size() == 32, "salt");
                m.add_with_tree(id, d, salt, 0);
            } else
                m.add(id, d, 0);
            hash_now();
            CHECK(num(r.v.o, "id") == id, "add_file returned another part");
            ph.push_back({r.v, id});
        }
    }
    void add_key()
    {
        std::string k = KEYS[g.below(8)];
        std::string name = g.chance(80) ? strf("n%d", nin++) : g.pick({"fs", ""});
        std::string f = keydir() + k + g.pick({".pub.pem", ".pub.der"});
        bool bad = g.chance(10);
        if (bad)
            f = keydir() + g.pick({"bad_k256.pub.pem", "bad_rsa2048.pub.der", "nosuch"});
        uint32_t id = ref::id(name);
        Res r = call_mixed(g, pkg.o, "add_key", {{"part_name", py::str(name)}, {"filename", path_value(g, f)}});
        if (took(r, !bad && id && m.find(id) < 0 && m.parts.size() < 32, strf("add_key(%s, %s)", name.c_str(), f.substr(f.rfind('/') + 1).c_str()).c_str())) {
            m.add(id, slurp(keydir() + k + ".pub.der"), 0);
            hash_now();
            ph.push_back({r.v, id});
        }
    }
    Ref data_value(Bytes &d, bool &isstr, size_t max)
    {
        isstr = g.flip();
        if (isstr) {
            size_t n = (size_t)g.below(max + 1);
            d.resize(n);
            for (auto &x : d)
                x = (uint8_t)g.range(1, 127);
            Ref v = py::str(std::string(d.begin(), d.end()));
            d.push_back(0);
            return v;
        }
        d = g.content((size_t)g.below(max + 1));
        return py::bytes(d);
    }
    void add_meta()
    {
        std::vector<uint32_t> tk;
        for (auto &x : m.metas)
            tk.push_back(x.id);
        uint32_t id = some_id(tk), rf = g.chance(60) ? 0 : g.chance(70) ? some_part() : (uint32_t)g.below(5);
        Bytes d;
        bool isstr = false, have = g.chance(85);
        Ref v;
        size_t big = g.chance(85) ? 60 : 2000;
        py::Kw kw = {{"id", py::num(id)}};
        bool giveref = rf || g.flip();
        kw.push_back({"part_id_ref", giveref ? py::num(rf) : Ref()});
        if (have)
            v = data_value(d, isstr, big);
        kw.push_back({"data", v});
        bool must = id != 0;
        size_t sz = d.size();
        if (!have || g.chance(25)) {
            sz = (size_t)(g.chance(90) ? g.below(big) : g.pick<uint64_t>({1921, 65535, 65536, 65537, 65540, 131072, 1u << 31}));
            kw.push_back({"size", py::num(sz)});
        }
        // a positional hole is not possible: give what is missing by keyword
        py::Kw full;
        for (auto &x : kw)
            if (x.second)
                full.push_back(x);
        Res r = full.size() == kw.size() ? call_mixed(g, pkg.o, "add_meta", kw) : py::call(pkg.o, "add_meta", {}, full);
        must = must && m.find_meta(id, rf) < 0 && m.meta_fits(sz);
        if (took(r, must, strf("add_meta(%08x, %08x, %zu bytes%s, size %zu)", id, rf, d.size(), isstr ? " of text" : "", sz).c_str())) {
            d.resize(sz, 0);
            m.add_meta(id, rf, d);
            meta_is(r.v.o, m.metas.back(), "add_meta");
            mh.push_back({r.v, id, rf});
        }
    }
    void set_number()
    {
        static const char *names[] = {"key_id", "keystore_id", "hash_kind", "signature_kind"};
        size_t k = g.weighted({4, 4, 3, 2});
        uint64_t lim = k < 2 ? (1ull << 32) : 256;
        uint64_t v;
        if (k == 2)
            v = g.range(1, 3);
        else if (k == 3)
            v = g.range(1, 4);
        else
            v = g.chance(50) ? g.draw(1ull << 32) : g.below(100);
        bool fits = true;
        if (g.chance(12)) {
            v = g.pick<uint64_t>({lim, lim + 1, lim + 2, 1ull << 33, (1ull << 32) + 3, 1ull << 63, ~0ull});
            fits = v < lim;
        }
        Res r;
        bool neg = g.chance(4);
        Ref val = neg ? py::inum(-(long long)g.range(1, 3)) : py::num(v);
        if (!neg && fits && k >= 2 && g.flip()) { // by the constant of the module
            static const char *kinds[2][5] = {{"", "HASH_SHA256", "HASH_SHA384", "HASH_SHA512", ""}, {"", "SIGN_RSA4096", "SIGN_PRIME256v1", "SIGN_SECP384r1", "SIGN_SECP521r1"}};
            Res cst = py::get(py::mod, kinds[k - 2][v]);
            CHECK(cst.ok(), "%s: %s", kinds[k - 2][v], cst.str().c_str());
            val = cst.v;
        }
        r = py::set(pkg.o, names[k], val.o);
        if (took(r, fits && !neg, strf("%s = %llu%s", names[k], (unsigned long long)v, neg ? " (negative)" : "").c_str())) {
            if (k == 0)
                m.key_id = (uint32_t)v;
            else if (k == 1)
                m.ks_id = (uint32_t)v;
            else if (k == 2) {
                if (m.hash_kind != (uint8_t)v)
                    stale = unknown = m.stale_tail = true;
                m.hash_kind = (uint8_t)v;
            } else
                m.sig_kind = (uint8_t)v;
        }
    }
    void set_sig()
    {
        Bytes d = g.content((size_t)g.range(0, g.chance(90) ? 512 : 600));
        Ref v = py::bytes(d);
        bool clear = g.chance(25), del = clear && g.flip();
        if (clear)
            d.clear();
        Res r = del ? py::set(pkg.o, "signature", nullptr) : py::set(pkg.o, "signature", clear ? Py_None : v.o);
        if (took(r, d.size() <= 512, strf("signature = %s%zu bytes", clear ? "nothing, " : "", d.size()).c_str()))
            m.sig = d;
    }
    void sign()
    {
        std::string k = KEYS[g.below(8)];
        bool bad = g.chance(10);
        std::string f = keydir() + k + ".p8.pem";
        if (bad)
            f = keydir() + g.pick({"bad_k256.p8.pem", "p256a.pub.pem", "nosuch"});
        Res r = call_mixed(g, pkg.o, "sign", {{"sign_key_path", path_value(g, f)}});
        if (took(r, !bad, strf("sign(%s)", f.substr(f.rfind('/') + 1).c_str()).c_str())) {
            CHECK(r.v.o == Py_True, "sign did not return True");
            hash_now();
            Res s = py::get(pkg.o, "signature");
            CHECK(s.ok() && py::is_bytes(s.v.o, m.sig), "no signature after signing");
            Bytes d = digest();
            CHECK(!m.sig.empty() && ossl::verify(k, m.hash_kind, d, m.sig), "the signature is not one of %s", k.c_str());
        }
    }
    Bytes digest() { return ref::header_digest(canon_tail()); }
    // the header with the payload hash tail that the object really has is not observable: only use when there is none
    Bytes canon_tail() { return m.header(); }
    bool tail_clean() const
    {
        for (size_t i = ref::hash_len(m.hash_kind); i < 64; i++)
            if (m.phash[i])
                return false;
        return true;
    }
    void verify()
    {
        std::string k = KEYS[g.below(8)];
        if (writeonly || stale)
            return;
        Res r = call_mixed(g, pkg.o, "verify", {{"verify_key_path", path_value(g, keydir() + k + ".pub.pem")}});
        bool want = !m.sig.empty() && ossl::verify(k, m.hash_kind, digest(), m.sig);
        if (want) { // a root hash asks for its tree
            int tr = tree_state(m.build());
            if (tr < 0)
                return;
            want = tr;
        }
        c.log("verify(%s) -> %s\n", k.c_str(), r.str().c_str());
        CHECK(r.ok() == want, "verify(%s): %s, the reference says %s", k.c_str(), r.str().c_str(), want ? "genuine" : "not genuine");
        if (want)
            c.label("verified");
    }
    void read_digest()
    {
        if (writeonly && !m.parts.empty())
            return;
        Res r = py::get(pkg.o, "digest");
        Bytes b;
        CHECK(r.ok() && py::is_bytes(r.v.o, b), "digest: %s", r.ok() ? "not bytes" : r.str().c_str());
        bool was = stale;
        m.update_hash();
        if (was) {
            stale = false;
            unknown = true;
        }
        CHECK(b == digest(), "digest is %s, expected %s", hexs(b.data(), b.size()).c_str(), hexs(digest().data(), digest().size()).c_str());
        c.log("digest\n");
    }
    void grab() // look something up and keep it
    {
        if (g.flip()) {
            uint32_t id = g.chance(5) ? 0 : some_part();
            Res r = call_mixed(g, pkg.o, "get_part", {{"id", py::num(id)}});
            int k = id ? m.find(id) : -1;
            c.log("get_part(%08x) -> %s\n", id, r.str().c_str());
            CHECK(r.ok() == (k >= 0), "get_part(%08x): %s", id, r.str().c_str());
            if (r.ok())
                ph.push_back({r.v, id});
            else
                CHECK(r.exc == "KeyError", "get_part of a missing part: %s", r.str().c_str());
        } else {
            uint32_t id = 0x123, rf = 0;
            if (!m.metas.empty() && g.chance(80)) {
                size_t k = (size_t)g.below(m.metas.size());
                id = m.metas[k].id;
                rf = g.chance(85) ? m.metas[k].ref : (uint32_t)g.below(4);
            } else if (g.chance(20))
                id = 0;
            Res r = rf || g.flip() ? call_mixed(g, pkg.o, "get_meta", {{"id", py::num(id)}, {"part_id_ref", py::num(rf)}}) : call_mixed(g, pkg.o, "get_meta", {{"id", py::num(id)}});
            int k = id ? m.find_meta(id, rf) : -1;
            c.log("get_meta(%08x, %08x) -> %s\n", id, rf, r.str().c_str());
            CHECK(r.ok() == (k >= 0), "get_meta(%08x, %08x): %s", id, rf, r.str().c_str());
            if (r.ok()) {
                meta_is(r.v.o, m.metas[(size_t)k], "get_meta");
                mh.push_back({r.v, id, rf});
            } else
                CHECK(r.exc == "KeyError", "get_meta of a missing entry: %s", r.str().c_str());
        }
    }
    void use_part()
    {
        if (ph.empty())
            return grab();
        Hp &h = ph[g.below(ph.size())];
        int k = m.find(h.id);
        std::string what = strf("part %08x%s: ", h.id, k < 0 ? " (gone)" : "");
        switch (g.weighted({4, 3, 3, 2})) {
        case 0: {
            Res r = py::call(h.o.o, "read_data", {});
            Bytes b;
            c.log("%sread_data -> %s\n", what.c_str(), r.ok() ? "ok" : r.exc.c_str());
            if (writeonly)
                break;
            CHECK(r.ok() == (k >= 0), "%sread_data: %s", what.c_str(), r.str().c_str());
            if (k >= 0)
                CHECK(py::is_bytes(r.v.o, b) && b == m.parts[(size_t)k].data(), "%sread_data returned other data: %s", what.c_str(), diff_desc(b, m.parts[(size_t)k].data()).c_str());
            break;
        }
        case 1: {
            std::vector<uint32_t> tk;
            for (auto &x : m.parts)
                tk.push_back(x.id);
            uint64_t v = g.chance(90) ? some_id(tk) : g.pick<uint64_t>({0, 1ull << 32, (1ull << 32) + 5, ~0ull});
            int other = m.find((uint32_t)v);
            Res r = py::set(h.o.o, "id", py::num(v).o);
            if (took(r, k >= 0 && v && v < (1ull << 32) && (other < 0 || other == k), (what + strf("id = %llx", (unsigned long long)v)).c_str())) {
                m.parts[(size_t)k].id = (uint32_t)v;
                h.id = (uint32_t)v;
            }
            CHECK(num(h.o.o, "id") == h.id, "the part object has id %llx, expected %x", (unsigned long long)num(h.o.o, "id"), h.id);
            break;
        }
        case 2: {
            Res r = py::call(h.o.o, "delete", {});
            uint32_t id = h.id;
            if (took(r, k >= 0, (what + "delete").c_str())) {
                m.parts.erase(m.parts.begin() + k);
                m.drop_meta_of(id);
                hash_now();
            }
            break;
        }
        default: {
            Ref s(PyObject_Repr(h.o.o));
            py::finish("repr", (bool)s, nullptr);
        }
        }
    }
    void use_meta()
    {
        if (mh.empty())
            return grab();
        Hm &h = mh[g.below(mh.size())];
        int k = m.find_meta(h.id, h.ref);
        std::string what = strf("meta %08x/%08x%s: ", h.id, h.ref, k < 0 ? " (gone)" : "");
        MMeta *e = k < 0 ? nullptr : &m.metas[(size_t)k];
        switch (g.weighted({4, 2, 2, 2, 3, 3, 2})) {
        case 0: { // write
            Bytes d;
            bool isstr;
            size_t max = e ? e->data.size() : 20;
            Ref v = data_value(d, isstr, g.chance(80) && max ? max - 1 : max + 9);
            Res r = py::set(h.o.o, "raw_data", v.o);
            if (took(r, e && d.size() <= e->data.size(), (what + strf("raw_data = %zu bytes", d.size())).c_str())) {
                d.resize(e->data.size(), 0);
                e->data = d;
            }
            break;
        }
        case 1:
        case 2: {
            bool isref = g.flip();
            std::vector<uint32_t> tk;
            for (auto &x : m.metas)
                tk.push_back(isref ? x.ref : x.id);
            uint64_t v = g.chance(90) ? some_id(tk) : g.pick<uint64_t>({0, 1ull << 32, (1ull << 32) + 5, ~0ull});
            bool nul = isref && g.chance(10);
            if (nul)
                v = 0;
            Res r = py::set(h.o.o, isref ? "part_id_ref" : "id", nul ? Py_None : py::num(v).o);
            int other = isref ? m.find_meta(h.id, (uint32_t)v) : m.find_meta((uint32_t)v, h.ref);
            if (took(r, e && (isref || v) && v < (1ull << 32) && (other < 0 || other == k), (what + strf("%s = %llx", isref ? "part_id_ref" : "id", (unsigned long long)v)).c_str())) {
                if (isref)
                    e->ref = h.ref = (uint32_t)v;
                else
                    e->id = h.id = (uint32_t)v;
            }
            CHECK(num(h.o.o, "id") == h.id && num(h.o.o, "part_id_ref") == h.ref, "the metadata object changed its identity");
            break;
        }
        case 3: {
            Res r = py::call(h.o.o, "delete", {});
            if (took(r, e != nullptr, (what + "delete").c_str()))
                m.metas.erase(m.metas.begin() + k);
            break;
        }
        case 4: {
            Res r = py::call(h.o.o, "as_string", {});
            c.log("%sas_string -> %s\n", what.c_str(), r.str().c_str());
            if (!e) {
                CHECK(!r.ok(), "%sas_string succeeded", what.c_str());
                break;
            }
            Bytes w(e->data.begin(), std::find(e->data.begin(), e->data.end(), 0));
            bool ascii = std::all_of(w.begin(), w.end(), [](uint8_t x) { return x < 128; });
            CHECK(r.ok() == ascii, "%sas_string: %s", what.c_str(), r.str().c_str());
            if (ascii) {
                Ref want = py::str(std::string(w.begin(), w.end()));
                CHECK(PyObject_RichCompareBool(r.v.o, want.o, Py_EQ) == 1, "%sas_string returned another text: %s", what.c_str(), py::text(r.v.o).c_str());
            }
            break;
        }
        case 5: {
            Res r = py::call(h.o.o, "as_uuid", {});
            c.log("%sas_uuid -> %s\n", what.c_str(), r.str().c_str());
            CHECK(r.ok() == (e && e->data.size() == 16), "%sas_uuid of %zu bytes: %s", what.c_str(), e ? e->data.size() : 0, r.str().c_str());
            if (r.ok()) {
                Res b = py::get(r.v.o, "bytes");
                Bytes x;
                CHECK(b.ok() && py::is_bytes(b.v.o, x) && x == e->data, "%sas_uuid returned another uuid", what.c_str());
            }
            break;
        }
        default: {
            Ref s(PyObject_Repr(h.o.o));
            py::finish("repr", (bool)s, nullptr);
        }
        }
    }
    void step()
    {
        switch (g.weighted({5, 1, 5, 3, 1, 2, 2, 2, 3, 6, 6})) {
        case 0: add_file(); break;
        case 1: add_key(); break;
        case 2: add_meta(); break;
        case 3: set_number(); break;
        case 4: set_sig(); break;
        case 5: sign(); break;
        case 6: verify(); break;
        case 7: read_digest(); break;
        case 8: grab(); break;
        case 9: use_part(); break;
        case 10: use_meta(); break;
        }
    }
};

static void chdir_scratch(Case &c)
{
    if (chdir(c.scratch.c_str()) != 0)
        FAILF("harness: chdir");
}

// the messages the log function got
struct Messages {
    Ref list, func;
    bool on = false;
    Messages(Case &c)
    {
        Gen &g = c.g;
        set(false);
        on = g.chance(30);
        if (!on)
            return;
        if (g.flip())
            another();
        list = py::eval("[]");
        static const char *src[] = {"lambda l: lambda level, message: l.append((level, message))", "lambda l: lambda *a: l.append(a)",
                                    "lambda l: lambda level, message: [l.append((level, message)), 1 // 0]", "lambda l: lambda level, message, more=[]: l.append((level, message) + tuple(more))"};
        func = py::call(py::eval(src[g.weighted({6, 2, 1, 1})]).o, nullptr, {list}).v;
        set(true);
    }
    void set(bool mine)
    {
        Res r = py::call(py::mod, "set_log_func", {mine ? func : py::none()});
        CHECK(r.ok() && r.v.o == Py_None, "set_log_func: %s", r.str().c_str());
    }
    void another() { py::call(py::mod, "set_log_func", {py::eval("lambda level, message: None")}); }
    size_t count() { return list.o ? (size_t)PyList_GET_SIZE(list.o) : 0; }
    void look()
    {
        for (size_t i = 0; i < count(); i++) {
            PyObject *t = PyList_GET_ITEM(list.o, (Py_ssize_t)i);
            CHECK(PyTuple_GET_SIZE(t) == 2 && PyLong_Check(PyTuple_GET_ITEM(t, 0)) && PyUnicode_Check(PyTuple_GET_ITEM(t, 1)), "the log function got %s instead of a level and a message", py::text(t).c_str());
        }
    }
    // an operation that has something to tell
    static void complain(Case &c)
    {
        {
            Res p = py::call(py::get(py::mod, "Package").v.o, nullptr, {py::str(c.path("log-demo")), py::str("wb+")});
            CHECK(p.ok(), "opening a new archive: %s", p.str().c_str());
            Res r = py::call(p.v.o, "add_file", {py::str("x"), py::str(c.path("no-such-file"))});
            CHECK(!r.ok(), "a missing file was added");
            py::call(p.v.o, "close", {});
        }
        unlink(c.path("log-demo").c_str());
    }
    void end(Case &c)
    {
        if (!on)
            return;
        size_t n = count();
        complain(c);
        CHECK(count() > n, "the log function was not called for a file that is missing");
        look();
        if (c.g.flip())
            another();
        else
            set(false);
        n = count();
        complain(c);
        CHECK(count() == n, "a log function that is not set any longer was called");
        c.label("messages collected");
    }
    ~Messages() { py::call(py::mod, "set_log_func", {py::none()}); }
};

static void histories(Case &c)
{
    Gen &g = c.g;
    py::start();
    chdir_scratch(c);
    Messages msgs(c);
    size_t fds = open_fds();
    {
        Hist h(c);
        h.file = c.path("arc");
        bool fresh = g.chance(40);
        if (fresh) {
            unlink(h.file.c_str());
            h.m.update_hash();
        } else {
            arcgen::Opt o;
            o.max_parts = 4;
            o.max_size = 5000;
            h.m = arcgen::make(g, o);
            arcgen::describe(c, h.m);
            write_file(h.file, h.m.build());
        }
        size_t rounds = (size_t)g.range(1, 3);
        for (size_t r = 0; r < rounds; r++) {
            bool again = r > 0 || !fresh;
            h.mode = again ? g.pick({"rb+", "r+", "r+b", "rb", "r"}) : g.pick({"wb+", "w+", "w+b", "w", "wb"});
            h.readonly = h.mode == "rb" || h.mode == "r";
            h.writeonly = h.mode == "w" || h.mode == "wb";
            h.open();
            h.look("opening");
            size_t n = (size_t)g.range(0, c.thorough ? 16 : 10);
            for (size_t i = 0; i < n; i++) {
                h.step();
                h.look("this");
            }
            h.close();
        }
        if (h.changes)
            c.nontrivial();
        if (h.refusals)
            c.label("refusals");
    }
    msgs.end(c);
    CHECK(open_fds() == fds, "%zu descriptors are open, %zu before the history", open_fds(), fds);
}

// ---------------------------------------------------------------- transport
static void transport(Case &c)
{
    Gen &g = c.g;
    py::start();
    chdir_scratch(c);
    World w = make_world(c, g);
    std::string in = c.path("in"), org = c.path("org"), enc = c.path("enc"), dec = c.path("dec");
    Bytes orgf = w.org.build(), inf = w.in.build();
    write_file(in, inf);
    write_file(org, orgf);
    auto open = [&](const std::string &f, const char *m) {
        Res r = py::call(py::get(py::mod, "Package").v.o, nullptr, {path_value(g, f), py::str(m)});
        CHECK(r.ok(), "opening: %s", r.str().c_str());
        return r.v;
    };
    size_t fds = open_fds();
    auto code = [&](const char *fn, const std::string &from, const std::string &to) {
        Ref i = open(from, g.pick({"rb", "rb+"})), o = open(to, "wb+"), r = open(org, "rb");
        Res x = call_mixed(g, py::mod, fn, {{"input", i}, {"output", o}, {"origin", r}});
        Res y = py::call(o.o, "close", {});
        return !x.ok() ? x : y;
    };
    Res r = code("transport_encode", in, enc);
    CHECK(r.ok(), "transport_encode: %s", r.str().c_str());
    check_encoded(w, orgf, slurp(enc));
    r = code("transport_decode", enc, dec);
    CHECK(r.ok(), "transport_decode: %s", r.str().c_str());
    CHECK(slurp(dec) == inf, "decoding did not restore the archive: %s", cmp(slurp(dec), inf).c_str());
    CHECK(slurp(in) == inf && slurp(org) == orgf, "an input was modified");
    CHECK(open_fds() == fds, "%zu descriptors are open, %zu before", open_fds(), fds);
    if (w.has_delta || w.has_tree)
        c.nontrivial();
}
static void names(Case &c)
{
    Gen &g = c.g;
    py::start();
    std::string s;
    size_t n = (size_t)g.below(30);
    for (size_t i = 0; i < n; i++)
        s += (char)g.range(1, 127);
    c.log("id(%s)\n", hexs((const uint8_t *)s.data(), s.size()).c_str());
    Res r = call_mixed(g, py::mod, "id", {{"string", py::str(s)}});
    unsigned long long v;
    CHECK(r.ok() && py::is_num(r.v.o, v) && v == ref::id(s), "id: %s", r.ok() ? py::text(r.v.o).c_str() : r.str().c_str());
    c.nontrivial();
}

// ---------------------------------------------------------------- misuse
static const char *EVIL =
    "class BpakSub(bpak.Package):\n"
    "    def __init__(self, *a):\n"
    "        pass\n"
    "class BpakSub2(bpak.Package):\n"
    "    def __del__(self):\n"
    "        act('close', [self])\n"
    "victims = []\n"
    "def act(what, v=None):\n"
    "    v = list(victims) if v is None else v\n"
    "    if what == 'raise': raise RuntimeError('evil')\n"
    "    if what == 'gc': gc.collect()\n"
    "    if what == 'forget': victims.clear()\n"
    "    if what == 'nolog': bpak.set_log_func(None)\n"
    "    if what == 'relog': bpak.set_log_func(Log('close'))\n"
    "    for p in v:\n"
    "        try:\n"
    "            if what == 'close': p.close()\n"
    "            elif what == 'init': p.__init__('h0', 'rb')\n"
    "            elif what == 'init2': p.__init__('missing', 'rb')\n"
    "            elif what == 'look': [(q.id, q.size, q.raw_data if hasattr(q, 'raw_data') else q.read_data()) for q in p.parts + p.meta]\n"
    "            elif what == 'delete': [q.delete() for q in p.parts + p.meta]\n"
    "            elif what == 'key': p.key_id = 5\n"
    "            elif what == 'sig': p.signature = None\n"
    "            elif what == 'digest': p.digest\n"
    "            elif what == 'add': p.add_file('evil', 'in')\n"
    "            elif what == 'meta': p.add_meta(id=77, data='x')\n"
    "        except Exception: pass\n"
    "class Evil:\n"
    "    def __init__(self, what, ret): self.what = what; self.ret = ret\n"
    "    def __index__(self): act(self.what); return self.ret\n"
    "    def __int__(self): act(self.what); return self.ret\n"
    "    def __bool__(self): act(self.what); return True\n"
    "    def __fspath__(self): act(self.what); return self.ret\n"
    "    def __str__(self): act(self.what); return 'x'\n"
    "    def __buffer__(self, flags): act(self.what); return memoryview(b'xyz')\n"
    "class Log:\n"
    "    def __init__(self, what): self.what = what\n"
    "    def __call__(self, level, text): act(self.what)\n"
    "class Stop(int):\n"
    "    def __index__(self): raise ValueError('stop')\n"
    "class Text(str): pass\n"
    "class Data(bytes): pass\n"
    "sys.unraisablehook = lambda *a: None\n";
static const char *ACTS[] = {"close", "raise", "gc", "forget", "init", "init2", "look", "delete", "key", "sig", "digest", "add", "meta", "nolog", "relog", "nothing"};

struct Mis {
    Case &c;
    Gen &g;
    struct Obj {
        Ref o;
        std::string name;
    };
    std::vector<Obj> pk, pt, mt;
    size_t made = 0, ok = 0, raised = 0;
    Ref victims;
    explicit Mis(Case &c_) : c(c_), g(c_.g) {}
    std::string file() { return g.pick({"h0", "h1", "h2", "new", "new2", "in", "dir", "missing", "empty"}); }
    // anything may be opened for writing: only copies are used
    std::string keyfile(const std::string &n)
    {
        write_file(c.path(n), slurp(keydir() + n));
        return n;
    }
    Ref act() { return py::str(ACTS[g.below(16)]); }
    Obj any_value()
    {
        auto T = [&](Ref r, const std::string &n) { return Obj{r, n}; };
        auto E = [&](const std::string &src) { return T(py::eval(src), src); };
        switch (g.weighted({3, 3, 3, 3, 2, 2, 4, 3, 3, 3, 1})) {
        case 0: return E(g.pick({"None", "True", "False", "0", "-1", "1.5", "float('nan')", "2**31", "2**32", "2**32-1", "2**63", "2**64", "2**100", "-2**63"}));
        case 1: { uint64_t v = g.below(2000); return T(py::num(v), strf("%llu", (unsigned long long)v)); }
        case 2: return E(g.pick({"''", "'x'", "'\\xe5'", "'\\ud800'", "'a\\0b'", "'A' * 5000", "'A' * 1920", "'A' * 70000", "Text('fs')", "'fs'", "'kernel'", "'%s%n'"}));
        case 3: return E(g.pick({"b''", "b'x'", "b'\\xff\\xfe'", "b'a\\0b'", "bytes(511)", "bytes(512)", "bytes(513)", "bytes(70000)", "Data(b'abc')", "bytearray(b'abc')", "memoryview(b'abc')"}));
        case 4: return E(g.pick({"[]", "()", "{}", "[1]", "object()", "object", "bpak", "bpak.Package", "bpak.Part", "bpak.Error", "lambda *a: None", "len", "Stop(3)"}));
        case 5: { std::string f = file(); return T(path_value(g, f), f); }
        case 6: {
            std::string k = keyfile(KEYS[g.below(8)] + std::string(g.pick({".pub.pem", ".p8.pem", ".pub.der"})));
            return T(py::str(k), k);
        }
        case 7: { // something which exists
            if (pk.empty())
                return E("3");
            Res r = py::get(pk[g.below(pk.size())].o.o, g.pick({"parts", "meta"}));
            if (!r.ok() || !PyList_GET_SIZE(r.v.o))
                return E("4");
            Res i = py::get(PyList_GET_ITEM(r.v.o, (Py_ssize_t)g.below((uint64_t)PyList_GET_SIZE(r.v.o))), g.pick({"id", "id", "part_id_ref", "size"}));
            return i.ok() ? T(i.v, py::text(i.v.o)) : E("5");
        }
        case 8: {
            std::string a = ACTS[g.below(16)], r = g.pick({"3", "'h0'", "b'h1'", "None", "2**70", "-1", "'in'"});
            return E("Evil('" + a + "', " + r + ")");
        }
        case 9: {
            auto &v = g.flip() ? pk : g.flip() ? pt : mt;
            return v.empty() ? E("None") : v[g.below(v.size())];
        }
        default: return E(std::string("Log('") + ACTS[g.below(16)] + "')");
        }
    }
    // a value which often is right for the parameter
    Obj value_for(const std::string &par)
    {
        if (g.chance(30))
            return any_value();
        auto T = [&](Ref r, const std::string &n) { return Obj{r, n}; };
        if (par == "filename") {
            std::string f = file();
            return T(py::str(f), f);
        }
        if (par == "mode") {
            std::string m = g.pick({"rb", "rb+", "r+", "wb+", "w", "r", "a", "a+b", "", "x", "w+x", "rb+e"});
            return T(py::str(m), m);
        }
        if (par == "part_name" || par == "string") {
            std::string n = g.pick({"fs", "kernel", "a", "b", "c", "", "data", "boot"});
            return T(py::str(n), "'" + n + "'");
        }
        if (par == "sign_key_path" || par == "verify_key_path") {
            std::string k = keyfile(KEYS[g.below(8)] + std::string(par[0] == 's' ? ".p8.pem" : ".pub.pem"));
            return T(py::str(k), k);
        }
        if (par == "size")
            return Obj{py::inum(g.pick<long long>({-1, 0, 1, 16, 64, 500, 1920, 1921, 65535, 65536, 65544, 131072, 1ll << 31, 1ll << 32, (1ll << 63) - 1})), "a size"};
        if (par == "data") {
            Bytes b = g.content((size_t)g.below(g.chance(70) ? 60 : 3000));
            return T(py::bytes(b), strf("%zu bytes", b.size()));
        }
        if (par == "log_func") {
            std::string a = ACTS[g.below(16)];
            return g.chance(70) ? T(py::eval("Log('" + a + "')"), "Log " + a) : any_value();
        }
        if ((par == "input" || par == "output" || par == "origin") && !pk.empty())
            return pk[g.below(pk.size())];
        if ((par == "id" || par == "part_id_ref") && g.chance(60)) {
            for (int k = 0; k < 5 && !pk.empty(); k++) {
                Obj o = any_value();
                if (PyLong_Check(o.o.o))
                    return o;
            }
        }
        if (par == "value" && g.flip()) {
            uint64_t v = g.below(5);
            return T(py::num(v), strf("%llu", (unsigned long long)v));
        }
        return any_value();
    }
    // after a call: the interpreter is consistent
    Res done(const std::string &what, Res r)
    {
        c.log("%s -> %s\n", what.c_str(), r.ok() ? "ok" : r.str().substr(0, 80).c_str());
        CHECK(r.exc != "SystemError", "%s: %s", what.c_str(), r.str().c_str());
        (r.ok() ? ok : raised)++;
        return r;
    }
    Res invoke(const std::string &label, PyObject *o, const char *m, const std::vector<std::string> &pars, size_t required)
    {
        size_t n = g.chance(85) ? (size_t)g.range(required, pars.size()) : (size_t)g.range(0, pars.size() + 1);
        py::Args a;
        py::Kw kw;
        std::string txt;
        bool bykw = g.chance(30);
        std::vector<Ref> keep;
        for (size_t i = 0; i < n; i++) {
            Obj v = i < pars.size() ? value_for(pars[i]) : any_value();
            if (i < pars.size() && (bykw || g.chance(10)))
                bykw = true;
            txt += (txt.empty() ? "" : ", ") + (bykw && i < pars.size() ? pars[i] + "=" : std::string()) + v.name;
            if (bykw)
                kw.push_back({i < pars.size() && !g.chance(2) ? pars[i] : "nonsense", v.o});
            else
                a.push_back(v.o);
            keep.push_back(v.o);
        }
        Res r = done(strf("%s.%s(%s)", label.c_str(), m ? m : "new", txt.c_str()), py::call(o, m, a, kw));
        for (auto &k : keep)
            CHECK(Py_REFCNT(k.o) > 0, "an argument lost its references");
        return r;
    }
    void keep(Res &r, const std::string &label)
    {
        if (!r.ok() || !r.v)
            return;
        PyObject *P = py::get(py::mod, "Package").v.o, *Q = py::get(py::mod, "Part").v.o, *M = py::get(py::mod, "Meta").v.o;
        auto put = [&](std::vector<Obj> &v, PyObject *o, const char *pre) {
            Obj x{py::borrow(o), strf("%s%zu", pre, made++)};
            if (v.size() < 5)
                v.push_back(x);
            else
                v[g.below(v.size())] = x;
            c.log("   %s is %s\n", x.name.c_str(), label.c_str());
        };
        if (PyObject_IsInstance(r.v.o, P) == 1) {
            put(pk, r.v.o, "p");
            if (g.flip())
                PyList_Append(victims.o, r.v.o);
        } else if (PyObject_IsInstance(r.v.o, Q) == 1)
            put(pt, r.v.o, "q");
        else if (PyObject_IsInstance(r.v.o, M) == 1)
            put(mt, r.v.o, "m");
        else if (PyList_Check(r.v.o) && PyList_GET_SIZE(r.v.o)) {
            Res e;
            e.v = py::borrow(PyList_GET_ITEM(r.v.o, (Py_ssize_t)g.below((uint64_t)PyList_GET_SIZE(r.v.o))));
            keep(e, label + "[i]");
        }
        PyErr_Clear();
    }
    void make()
    {
        if (g.chance(50)) { // a package which most likely can be used
            std::string f = g.pick({"h0", "h1", "h2", "new", "new2"}), m = f[0] == 'n' && g.chance(60) ? "wb+" : g.pick({"rb+", "rb+", "r+", "rb"});
            Res r = done("bpak.Package(" + f + ", " + m + ")", py::call(py::get(py::mod, "Package").v.o, nullptr, {py::str(f), py::str(m)}));
            keep(r, "bpak.Package");
            if (!r.ok() || g.flip())
                return;
            const char *w = g.pick({"parts", "meta"});
            Res l = done(std::string("its ") + w, py::get(r.v.o, w));
            for (size_t i = 0; l.ok() && i < 3; i++)
                keep(l, w);
            return;
        }
        std::string src = g.pick({"bpak.Package", "bpak.Package", "bpak.Package", "bpak.Package", "BpakSub", "BpakSub2", "BpakSub2", "bpak.Part", "bpak.Meta", "object.__new__"});
        Ref k = py::eval(src);
        Res r;
        if (g.chance(10)) {
            if (src == "object.__new__") {
                src = "object.__new__(" + std::string(g.pick({"bpak.Package", "bpak.Part", "bpak.Meta"})) + ")";
                Ref f(PyRun_String(src.c_str(), Py_eval_input, py::globals, py::globals));
                PyObject *o = f.o;
                Py_XINCREF(o);
                r = done(src, py::finish(src.c_str(), o != nullptr, o));
            } else
                r = done(src + ".__new__", py::call(k.o, "__new__", {k}));
        } else
            r = invoke(src, k.o, nullptr, {"filename", "mode"}, 2);
        keep(r, src);
    }
    void package()
    {
        if (pk.empty())
            return make();
        Obj o = pk[g.below(pk.size())];
        static const struct { const char *m; std::vector<std::string> pars; size_t req; } ms[] = {
            {"close", {}, 0}, {"verify", {"verify_key_path"}, 1}, {"sign", {"sign_key_path"}, 1}, {"add_file", {"part_name", "filename", "with_merkle_tree"}, 2},
            {"add_key", {"part_name", "filename"}, 2}, {"add_meta", {"id", "part_id_ref", "data", "size"}, 1}, {"get_part", {"id"}, 1}, {"get_meta", {"id", "part_id_ref"}, 1},
            {"__enter__", {}, 0}, {"__exit__", {"x", "y", "z"}, 0}, {"__init__", {"filename", "mode"}, 2}};
        static const char *as[] = {"digest", "hash_kind", "installed_size", "key_id", "keystore_id", "signature", "signature_kind", "size", "parts", "meta", "nothing", "__class__", "__dict__"};
        Res r;
        std::string label = o.name;
        switch (g.weighted({6, 4, 3})) {
        case 0: {
            auto &m = ms[g.weighted({2, 2, 3, 5, 3, 5, 3, 3, 1, 1, 2})];
            r = invoke(o.name, o.o.o, m.m, m.pars, m.req);
            label += std::string(".") + m.m;
            break;
        }
        case 1: {
            const char *a = g.chance(40) ? as[8 + g.below(2)] : as[g.below(13)];
            label += std::string(".") + a;
            r = done(label, py::get(o.o.o, a));
            break;
        }
        default: {
            const char *a = as[g.below(12)];
            bool del = g.chance(15);
            Obj v = value_for(strcmp(a, "signature") ? "value" : "data");
            if (!strcmp(a, "__class__")) // assignment would make the object something else
                return;
            done(strf("%s %s.%s = %s", del ? "del" : "set", o.name.c_str(), a, del ? "" : v.name.c_str()), py::set(o.o.o, a, del ? nullptr : v.o.o));
            return;
        }
        }
        keep(r, label);
    }
    void entry()
    {
        auto &v = g.flip() ? pt : mt;
        if (v.empty())
            return package();
        Obj o = v[g.below(v.size())];
        bool meta = &v == &mt;
        static const char *pa[] = {"id", "size", "offset", "is_transport_encoded", "read_data", "delete"}, *ma[] = {"id", "part_id_ref", "size", "raw_data", "as_uuid", "as_string", "delete"};
        const char *a = meta ? ma[g.weighted({2, 2, 2, 4, 3, 4, 3})] : pa[g.weighted({2, 2, 2, 2, 4, 3})];
        if (g.chance(15)) { // gone or not: everything such an object offers
            if (g.chance(80))
                invoke(o.name, o.o.o, "delete", {}, 0);
            size_t n = meta ? 7 : 6, at = (size_t)g.below(n);
            for (size_t i = 0; i < n; i++) {
                const char *b = (meta ? ma : pa)[(i + at) % n];
                Res r = py::get(o.o.o, b);
                done(o.name + "." + b, r);
                if (r.ok() && PyCallable_Check(r.v.o) && strcmp(b, "delete"))
                    invoke(o.name, o.o.o, b, {}, 0);
                bool raw = !strcmp(b, "raw_data");
                if (raw || !strcmp(b, "id") || !strcmp(b, "part_id_ref")) {
                    Ref x = raw ? py::bytes(g.content((size_t)g.below(40))) : py::num(g.below(100));
                    done(strf("set %s.%s", o.name.c_str(), b), py::set(o.o.o, b, x.o));
                }
            }
            return;
        }
        if (g.chance(40)) {
            bool del = g.chance(15);
            Obj x = value_for(!strcmp(a, "raw_data") ? "data" : "id");
            done(strf("%s %s.%s = %s", del ? "del" : "set", o.name.c_str(), a, del ? "" : x.name.c_str()), py::set(o.o.o, a, del ? nullptr : x.o.o));
        } else if (g.chance(10)) {
            PyObject *r = PyObject_Repr(o.o.o);
            done(o.name + " repr", py::finish("repr", r != nullptr, r));
        } else {
            Res r = py::get(o.o.o, a);
            if (r.ok() && PyCallable_Check(r.v.o))
                invoke(o.name, o.o.o, a, {}, 0);
            else
                done(o.name + "." + a, r);
        }
    }
    void module()
    {
        switch (g.weighted({1, 3, 3, 3})) {
        case 0: invoke("bpak", py::mod, "id", {"string"}, 1); break;
        case 1: invoke("bpak", py::mod, "set_log_func", {"log_func"}, 1); break;
        case 2: invoke("bpak", py::mod, "transport_encode", {"input", "output", "origin"}, 2); break;
        default: invoke("bpak", py::mod, "transport_decode", {"input", "output", "origin"}, 2); break;
        }
    }
    void drop()
    {
        auto &v = g.pick<size_t>({0, 1, 2}) == 0 ? pk : g.flip() ? pt : mt;
        if (!v.empty()) {
            size_t k = (size_t)g.below(v.size());
            c.log("drop %s\n", v[k].name.c_str());
            v.erase(v.begin() + (long)k);
        }
        if (g.chance(20)) {
            c.log("collect\n");
            PyGC_Collect();
        }
    }
};
static void limits()
{
    signal(SIGXFSZ, SIG_IGN);
    struct rlimit l;
    getrlimit(RLIMIT_FSIZE, &l);
    l.rlim_cur = 8 << 20;
    setrlimit(RLIMIT_FSIZE, &l);
}
static void misuse(Case &c)
{
    Gen &g = c.g;
    py::start();
    static bool evil = false;
    if (!evil)
        py::run_source(EVIL);
    evil = true;
    chdir_scratch(c);
    limits();
    py::call(py::mod, "set_log_func", {py::none()});
    for (size_t i = 0; i < 3; i++) {
        Bytes f = g.chance(60) ? arcgen::make(g, arcgen::Opt()).build() : hostgen::hostile(c, g);
        write_file(c.path(strf("h%zu", i)), f);
    }
    write_file(c.path("in"), g.content(g.flip() ? 4096 * (size_t)g.range(1, 2) : (size_t)g.below(3000)));
    write_file(c.path("empty"), Bytes());
    unlink(c.path("new").c_str());
    unlink(c.path("new2").c_str());
    mkdir(c.path("dir").c_str(), 0700);
    size_t fds = open_fds();
    {
        Mis m(c);
        m.victims = py::global("victims");
        size_t n = (size_t)g.range(3, c.thorough ? 60 : 30);
        for (size_t i = 0; i < n; i++)
            switch (g.weighted({3, 7, 6, 3, 1})) {
            case 0: m.make(); break;
            case 1: m.package(); break;
            case 2: m.entry(); break;
            case 3: m.module(); break;
            default: m.drop();
            }
        if (m.ok > 2 && m.raised)
            c.nontrivial();
        c.label(strf("%s parts, %s metadata kept", m.pt.empty() ? "no" : "some", m.mt.empty() ? "no" : "some"));
        PyList_SetSlice(m.victims.o, 0, PyList_GET_SIZE(m.victims.o), nullptr);
        py::call(py::mod, "set_log_func", {py::none()});
    }
    PyGC_Collect();
    CHECK(!PyErr_Occurred(), "an exception is pending at the end");
    Res r = py::call(py::mod, "id", {py::str("fs")});
    unsigned long long v;
    CHECK(r.ok() && py::is_num(r.v.o, v) && v == ref::id("fs"), "the module does not work any more");
    r = Res();
    CHECK(open_fds() == fds, "%zu descriptors are open, %zu before: packages were not released", open_fds(), fds);
}
// everything the module can do with one arbitrary file
static void files(Case &c)
{
    Gen &g = c.g;
    py::start();
    chdir_scratch(c);
    limits();
    py::call(py::mod, "set_log_func", {py::none()});
    Bytes f = hostgen::hostile(c, g), o = g.flip() ? f : hostgen::hostile(c, g);
    write_file(c.path("h0"), f);
    write_file(c.path("h1"), o);
    size_t fds = open_fds();
    bool usable = false;
    {
        Mis m(c);
        Res r = m.done("open", py::call(py::get(py::mod, "Package").v.o, nullptr, {py::str("h0"), py::str(g.pick({"rb", "rb+"}))}));
        if (r.ok()) {
            usable = true;
            Ref p = r.v;
            for (const char *a : {"hash_kind", "installed_size", "key_id", "keystore_id", "signature", "signature_kind", "size", "digest"})
                m.done(a, py::get(p.o, a));
            Res ps = m.done("parts", py::get(p.o, "parts")), ms = m.done("meta", py::get(p.o, "meta"));
            for (Py_ssize_t i = 0; ps.ok() && i < PyList_GET_SIZE(ps.v.o); i++) {
                PyObject *q = PyList_GET_ITEM(ps.v.o, i);
                for (const char *a : {"id", "size", "offset", "is_transport_encoded"})
                    m.done(a, py::get(q, a));
                m.done("read_data", py::call(q, "read_data", {}));
                PyObject *s = PyObject_Repr(q);
                m.done("repr", py::finish("repr", s != nullptr, s));
            }
            for (Py_ssize_t i = 0; ms.ok() && i < PyList_GET_SIZE(ms.v.o); i++) {
                PyObject *q = PyList_GET_ITEM(ms.v.o, i);
                for (const char *a : {"id", "part_id_ref", "size", "raw_data"})
                    m.done(a, py::get(q, a));
                m.done("as_string", py::call(q, "as_string", {}));
                m.done("as_uuid", py::call(q, "as_uuid", {}));
                PyObject *s = PyObject_Repr(q);
                m.done("repr", py::finish("repr", s != nullptr, s));
            }
            m.done("verify", py::call(p.o, "verify", {py::str(m.keyfile(KEYS[g.below(8)] + std::string(".pub.pem")))}));
            Res x = py::call(py::get(py::mod, "Package").v.o, nullptr, {py::str("h1"), py::str("rb")});
            Res y = py::call(py::get(py::mod, "Package").v.o, nullptr, {py::str("out"), py::str("wb+")});
            CHECK(y.ok(), "cannot create an archive: %s", y.str().c_str());
            py::Args a = {p, y.v};
            if (x.ok())
                a.push_back(x.v);
            m.done("transport", py::call(py::mod, g.flip() ? "transport_decode" : "transport_encode", a));
            size_t k = (size_t)g.below(3);
            for (Py_ssize_t i = 0; k == 0 && ps.ok() && i < PyList_GET_SIZE(ps.v.o); i++)
                m.done("delete", py::call(PyList_GET_ITEM(ps.v.o, i), "delete", {}));
            for (Py_ssize_t i = 0; k == 1 && ms.ok() && i < PyList_GET_SIZE(ms.v.o); i++)
                m.done("delete", py::call(PyList_GET_ITEM(ms.v.o, i), "delete", {}));
            for (Py_ssize_t i = 0; k == 2 && ms.ok() && i < PyList_GET_SIZE(ms.v.o); i++)
                m.done("raw_data=", py::set(PyList_GET_ITEM(ms.v.o, i), "raw_data", py::bytes(g.content((size_t)g.below(80))).o));
            m.done("add_meta", py::call(p.o, "add_meta", {py::num(g.below(5)), py::num(g.below(3)), py::bytes(g.content((size_t)g.below(200)))}));
            m.done("add_file", py::call(p.o, "add_file", {py::str(g.pick({"fs", "new"})), py::str("h1"), py::boolean(g.flip())}));
            m.done("sign", py::call(p.o, "sign", {py::str(m.keyfile(KEYS[g.below(8)] + std::string(".p8.pem")))}));
        }
    }
    PyGC_Collect();
    CHECK(open_fds() == fds, "%zu descriptors are open, %zu before: packages were not released", open_fds(), fds);
    if (usable)
        c.nontrivial();
    else
        c.label("refused");
}

static std::vector<Prop> props = {
    {"C31", "histories", histories, 20000, 300000,
     "histories of Python calls (opening in any mode, add file/tree/key/metadata, header fields, ids, raw data, deletion, lists, look-ups through kept and stale objects, sign, verify, digest, closing in three ways and reopening) on new and generated archives; after every call all attributes of the package, its parts and metadata are compared with the model, after every close the file; non-trivial: at least one change was made", 60},
    {"C31", "transport", transport, 4000, 60000, "pairs of archives with codings, encoded and decoded through the module, against the reference encoding and the original; non-trivial: at least one part is coded", 60},
    {"C31", "ids", names, 3000, 50000, "random strings hashed to ids, against the reference; non-trivial: all", 60},
    {"C32", "misuse", misuse, 20000, 400000,
     "sequences of calls, attribute reads, assignments and deletions on open, closed, failed, uninitialised and subclassed packages, parts and metadata (also of deleted entries), with values of every kind, among them objects whose conversion closes packages or raises, log functions which use the packages, damaged archives; every call must return or raise without memory errors, pending exceptions or internal errors, and all packages must be released at the end; non-trivial: more than two calls worked and one raised", 60},
    {"C32", "files", files, 4000, 80000,
     "arbitrary and damaged archives: every attribute and operation of the package, its parts and metadata; non-trivial: the archive could be opened", 60},
};
PBT_MAIN(props)
