// C25 failing storage.  PBT_NEEDS_CLI
// PBT_WRAP(fwrite) PBT_WRAP(fread) PBT_WRAP(fseek) PBT_WRAP(fseeko) PBT_WRAP(fflush) PBT_WRAP(fclose) PBT_WRAP(ftruncate) PBT_WRAP(write) PBT_WRAP(pwrite) PBT_WRAP(lseek) PBT_WRAP(fopen)
#include "world.hh"
#include "cli.hh"
#include <bpak/crypto.h>
extern "C" {
#include <bpak/key.h>
}
using namespace pbt;
using namespace model;
using namespace world;

// ---------------------------------------------------------------- failing storage
// From the file call number `from` up to (not including) number `to`, nothing can be written at or behind byte `limit`
// of any file.  The limit is the kernel's file size limit: writes up to it succeed, in part, and fail behind it.
struct Fault {
    uint64_t from = 0, to = UINT64_MAX, limit = 0;
    bool trunc = false; // ftruncate fails as well
    std::string str() const
    {
        return strf("calls %llu..%s, limit %llu%s", (unsigned long long)from, to == UINT64_MAX ? "end" : strf("%llu", (unsigned long long)to).c_str(), (unsigned long long)limit,
                    trunc ? ", no truncation" : "");
    }
};
static struct {
    bool on = false, limited = false;
    uint64_t calls = 0;
    Fault f;
    size_t buf = 0; // size of file buffers (it follows the block size of the file system); 0: as it is
} W;
static rlim_t w_old;
static void w_set(bool lim)
{
    struct rlimit r;
    getrlimit(RLIMIT_FSIZE, &r);
    if (lim && !W.limited)
        w_old = r.rlim_cur;
    r.rlim_cur = lim ? (rlim_t)W.f.limit : w_old;
    if (lim != W.limited && setrlimit(RLIMIT_FSIZE, &r) != 0)
        FAILF("harness: setrlimit %s", strerror(errno));
    W.limited = lim;
}
static void tick()
{
    if (!W.on)
        return;
    bool in = W.calls >= W.f.from && W.calls < W.f.to;
    W.calls++;
    if (in != W.limited)
        w_set(in);
}
static void w_start(const Fault *f)
{
    signal(SIGXFSZ, SIG_IGN);
    W.calls = 0;
    W.limited = false;
    W.f = f ? *f : Fault{UINT64_MAX, UINT64_MAX, 0, false};
    W.on = true;
}
static uint64_t w_stop()
{
    if (W.limited)
        w_set(false);
    W.on = false;
    return W.calls;
}
extern "C" {
size_t __real_fwrite(const void *p, size_t s, size_t n, FILE *f);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { return tick(), __real_fwrite(p, s, n, f); }
size_t __real_fread(void *p, size_t s, size_t n, FILE *f);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) { return tick(), __real_fread(p, s, n, f); }
int __real_fseek(FILE *f, long o, int w);
int __wrap_fseek(FILE *f, long o, int w) { return tick(), __real_fseek(f, o, w); }
int __real_fseeko(FILE *f, off_t o, int w);
int __wrap_fseeko(FILE *f, off_t o, int w) { return tick(), __real_fseeko(f, o, w); }
int __real_fflush(FILE *f);
int __wrap_fflush(FILE *f) { return tick(), __real_fflush(f); }
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) { return tick(), __real_fclose(f); }
int __real_ftruncate(int fd, off_t n);
int __wrap_ftruncate(int fd, off_t n)
{
    tick();
    if (W.limited && W.f.trunc) {
        errno = EIO;
        return -1;
    }
    return __real_ftruncate(fd, n);
}
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) { return tick(), __real_write(fd, b, n); }
ssize_t __real_pwrite(int fd, const void *b, size_t n, off_t o);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return tick(), __real_pwrite(fd, b, n, o); }
FILE *__real_fopen(const char *n, const char *m);
FILE *__wrap_fopen(const char *n, const char *m)
{
    FILE *f = __real_fopen(n, m);
    if (f && W.on && W.buf)
    {
        static char pool[32][65536];
        static unsigned next;
        setvbuf(f, pool[next++ % 32], _IOFBF, W.buf);
    }
    return f;
}
off_t __real_lseek(int fd, off_t o, int w);
off_t __wrap_lseek(int fd, off_t o, int w) { return tick(), __real_lseek(fd, o, w); }
}

// ---- signatures that do not depend on random numbers
static int fc_verify(const uint8_t *, size_t, const uint8_t *, size_t, enum bpak_hash_kind, struct bpak_key *, bool *v)
{
    *v = false;
    return -BPAK_NOT_SUPPORTED;
}
static int fc_sign(const uint8_t *h, size_t hn, enum bpak_hash_kind, struct bpak_key *k, uint8_t *s, size_t *sn)
{
    Bytes in(k->data, k->data + k->size);
    in.insert(in.end(), h, h + hn);
    Bytes w = ref::hash(2, in);
    if (*sn < w.size())
        return -BPAK_SIZE_ERROR;
    memcpy(s, w.data(), w.size());
    *sn = w.size();
    return BPAK_OK;
}
static int fc_parse(const uint8_t *b, size_t n, struct bpak_key **out)
{
    bpak_key *k = (bpak_key *)bpak_calloc(1, sizeof(bpak_key) + n);
    if (!k)
        return -BPAK_FAILED;
    k->size = (uint16_t)n;
    k->kind = BPAK_KEY_PUB_PRIME256v1;
    memcpy(k->data, b, n);
    *out = k;
    return BPAK_OK;
}
static int fc_load(const char *f, struct bpak_key **out)
{
    Bytes d = slurp(f);
    return d.empty() ? -BPAK_KEY_DECODE : fc_parse(d.data(), std::min<size_t>(d.size(), 700), out);
}

static Arc base_arc(Case &c, Gen &g)
{
    arcgen::Opt o;
    o.max_parts = 4;
    o.max_size = c.thorough ? 20000 : 9000;
    o.max_blocks = 3;
    Arc a = arcgen::make(g, o);
    arcgen::describe(c, a);
    return a;
}
static void put16(Bytes &b, size_t o, uint64_t v) { ref::put(b, o, 2, v); }
static uint64_t pick_limit(Gen &g, size_t biggest)
{
    switch (g.below(6)) {
    case 0: return 0;
    case 1: return (uint64_t)g.range(0, 4096);
    case 2: return 4096;
    case 3: return biggest > 600 ? biggest - (uint64_t)g.range(1, 600) : biggest / 2;
    default: return (uint64_t)g.range(0, std::max<size_t>(1, biggest));
    }
}
static Fault pick_fault(Gen &g, uint64_t calls, size_t biggest)
{
    Fault f;
    f.limit = pick_limit(g, biggest);
    if (g.chance(35))
        f.from = 0;
    else
        f.from = (uint64_t)g.below(calls + 1);
    if (g.chance(60))
        f.to = f.from + (g.chance(50) ? 1 + (uint64_t)g.below(4) : 1 + (uint64_t)g.below(calls + 1));
    f.trunc = g.chance(20);
    return f;
}

// run(): 0 when every step reported success; files(): everything the operations produced
struct Job {
    std::string what;
    std::function<void()> reset;
    std::function<int()> run;
    std::function<std::map<std::string, Bytes>()> files;
    size_t biggest = 0;
    std::function<Bytes(const Bytes &)> canon; // what the archive must be, for a result with a random salt
    std::map<std::string, Bytes> all()
    {
        auto m = files();
        if (canon && m.count("arc") && m["arc"] == canon(m["arc"]))
            m["arc"] = Bytes(); // exactly right for the salt it has
        return m;
    }
};
static void search(Case &c, Gen &g, Job &j, bool count_calls)
{
    c.log("%s\n", j.what.c_str());
    j.reset();
    W.buf = g.pick({0, 0, 512, 8192, 65536});
    w_start(nullptr);
    int rc = j.run();
    uint64_t calls = w_stop();
    if (rc != 0) {
        c.label("clean run refused");
        throw Discard{};
    }
    auto want = j.all();
    j.reset();
    rc = j.run();
    if (rc != 0 || j.all() != want) {
        c.label("not repeatable");
        throw Discard{};
    }
    size_t big = j.biggest;
    for (auto &f : want)
        big = std::max(big, f.second.size());
    if (!count_calls)
        calls = 60;
    bool reached = false;
    uint64_t tries = g.range(2, c.thorough ? 14 : 8);
    for (uint64_t k = 0; k < tries; k++) {
        Fault f = pick_fault(g, calls, big);
        j.reset();
        w_start(&f);
        rc = j.run();
        w_stop();
        if (rc != 0) {
            reached = true;
            continue;
        }
        auto got = j.all();
        for (auto &x : want)
            CHECK(got.count(x.first) && got[x.first] == x.second, "everything reported success although writing failed (%s), but '%s' is not what it must be: %s", f.str().c_str(),
                  x.first.c_str(), got.count(x.first) ? cmp(got[x.first], x.second).c_str() : "missing");
        CHECK(got.size() == want.size(), "everything reported success although writing failed (%s), but there are %zu files, expected %zu", f.str().c_str(), got.size(), want.size());
    }
    c.label(reached ? "reported" : "not reached");
    if (reached)
        c.nontrivial();
}

// ---------------------------------------------------------------- archive histories
static void histories(Case &c)
{
    Gen &g = c.g;
    bpak_crypto_setup(fc_verify, fc_sign, fc_load, fc_load, fc_parse);
    enum { ADD, TREE, KEY, SIGN, HDR, RAW, DEL, ALL, META, EXTRACT, REOPEN };
    struct Step {
        int op;
        std::string a, b;
        uint32_t id;
        Bytes d;
        bool flag;
    };
    auto steps = std::make_shared<std::vector<Step>>();
    Arc base = base_arc(c, g);
    auto start = std::make_shared<Bytes>(base.build());
    bool fresh = g.chance(30);
    if (fresh)
        base = Arc(), start->clear();
    std::vector<uint32_t> ids;
    for (auto &p : base.parts)
        ids.push_back(p.id);
    size_t n = (size_t)g.range(1, 5);
    std::string desc, dir = c.path("d");
    auto outs = std::make_shared<std::vector<std::string>>();
    for (size_t i = 0; i < n; i++) {
        Step s{};
        s.op = (int)g.weighted({4, 2, 2, 2, 2, 1, 4, 2, 1, 2, 2});
        s.flag = g.flip();
        if ((s.op == DEL || s.op == EXTRACT) && ids.empty())
            s.op = ADD;
        switch (s.op) {
        case ADD:
        case TREE:
            s.a = c.path(strf("in%zu", i));
            s.b = strf("n%zu", i);
            write_file(s.a, g.content(s.op == TREE ? 4096 * (size_t)g.range(1, 3) : (size_t)g.edge_size(c.thorough ? 20000 : 9000)));
            ids.push_back(ref::id(s.b));
            if (s.op == TREE)
                ids.push_back(ref::tree_id(ref::id(s.b)));
            break;
        case KEY:
            s.a = keydir() + "p256a.pub.pem";
            s.b = strf("n%zu", i);
            ids.push_back(ref::id(s.b));
            break;
        case SIGN: s.a = keydir() + "p256a.p8.der"; break;
        case HDR: s.id = (uint32_t)g.draw(1ull << 32); break;
        case RAW:
        case META: s.d = g.content((size_t)g.range(1, s.op == RAW ? 512 : 40)); break;
        case DEL:
        case EXTRACT: {
            size_t k = (size_t)g.below(ids.size());
            s.id = ids[k];
            if (s.op == DEL)
                ids.erase(ids.begin() + (long)k);
            else {
                s.a = dir + strf("/out%zu", i);
                outs->push_back(s.a);
            }
            break;
        }
        case ALL: ids.clear(); break;
        }
        desc += strf(" %s", (const char *[]){"add", "add-tree", "add-key", "sign", "set-key-id", "raw-signature", "delete", "delete-all", "add-meta", "extract", "reopen"}[s.op]);
        if (s.op == ADD || s.op == TREE)
            desc += strf("(%zu)", slurp(s.a).size());
        if (s.op == DEL || s.op == EXTRACT)
            desc += strf("(%08x)", s.id);
        steps->push_back(s);
    }
    std::string file = dir + "/arc";
    Job j;
    j.what = strf("history on %s:", fresh ? "a new archive" : "the archive") + desc;
    j.reset = [dir, file, start, fresh, outs]() {
        mkdir(dir.c_str(), 0755);
        if (fresh)
            unlink(file.c_str());
        else
            write_file(file, *start);
        for (auto &o : *outs)
            unlink(o.c_str());
        srandom(7);
    };
    j.run = [steps, file, fresh]() {
        Pkg p;
        int rc = p.open_file(file, fresh ? "wb+" : "rb+");
        for (auto &s : *steps) {
            if (rc)
                return rc;
            struct bpak_header *h = bpak_pkg_header(p.p);
            switch (s.op) {
            case ADD: rc = bpak_pkg_add_file(p.p, s.a.c_str(), s.b.c_str(), s.flag ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0); break;
            case TREE: rc = bpak_pkg_add_file_with_merkle_tree(p.p, s.a.c_str(), s.b.c_str(), s.flag ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0); break;
            case KEY: rc = bpak_pkg_add_key(p.p, s.a.c_str(), s.b.c_str(), 0); break;
            case SIGN: rc = bpak_pkg_sign(p.p, s.a.c_str()); break;
            case HDR:
                h->key_id = s.id;
                rc = bpak_pkg_write_header(p.p);
                break;
            case RAW: rc = bpak_pkg_write_raw_signature(p.p, s.d.data(), s.d.size()); break;
            case DEL: rc = bpak_pkg_delete_part(p.p, s.id, s.flag); break;
            case ALL: rc = bpak_pkg_delete_all_parts(p.p, s.flag); break;
            case META: {
                struct bpak_meta_header *m = nullptr;
                rc = bpak_add_meta(h, 0x4711, 0, (uint16_t)s.d.size(), &m);
                if (rc == BPAK_OK) {
                    memcpy(bpak_get_meta_ptr(h, m, uint8_t), s.d.data(), s.d.size());
                    rc = bpak_pkg_write_header(p.p);
                }
                break;
            }
            case EXTRACT: rc = bpak_pkg_extract_file(p.p, s.id, s.a.c_str()); break;
            case REOPEN:
                rc = p.close();
                if (!rc)
                    rc = p.open_file(file, "rb+");
                break;
            }
        }
        int cr = p.close();
        return rc ? rc : cr;
    };
    j.files = [file, outs]() {
        std::map<std::string, Bytes> m;
        m["archive"] = slurp(file);
        for (auto &o : *outs)
            m[o.substr(o.rfind('/') + 1)] = slurp(o);
        return m;
    };
    search(c, g, j, true);
}

// ---------------------------------------------------------------- transport
static int coded(bool encode, const std::string &in, const std::string &out, const std::string &org)
{
    Pkg i, o, r;
    int rc = i.open_file(in, "rb");
    rc = rc ? rc : r.open_file(org, "rb");
    rc = rc ? rc : o.open_file(out, "wb+");
    rc = rc ? rc : encode ? bpak_pkg_transport_encode(i.p, o.p, r.p) : bpak_pkg_transport_decode(i.p, o.p, r.p);
    int cr = o.close();
    return rc ? rc : cr;
}
static void transport(Case &c)
{
    Gen &g = c.g;
    World w = make_world(c, g);
    std::string in = c.path("in"), org = c.path("org"), enc = c.path("enc"), dec = c.path("dec");
    write_file(in, w.in.build());
    write_file(org, w.org.build());
    bool encode = g.flip();
    if (!encode && file_code(true, in, enc, org) != BPAK_OK) {
        c.label("clean run refused");
        throw Discard{};
    }
    std::string from = encode ? in : enc, to = encode ? enc : dec;
    Job j;
    j.what = encode ? "encode" : "decode";
    j.reset = [to]() { unlink(to.c_str()); };
    j.run = [=]() { return coded(encode, from, to, org); };
    j.files = [to]() {
        std::map<std::string, Bytes> m;
        m["output"] = slurp(to);
        return m;
    };
    search(c, g, j, true);
}

// ---------------------------------------------------------------- command line
static void commands(Case &c)
{
    Gen &g = c.g;
    std::string dir = c.path("d");
    auto files = std::make_shared<cli::Snap>();
    auto put = [&](const std::string &n, const Bytes &b) { (*files)[n].data = b; };
    cli::Argv a;
    bool keep_out = false;
    std::function<Bytes(const Bytes &)> canon;
    size_t biggest = 0;
    switch (g.below(9)) {
    case 0:
        a = {"create", "arc"};
        if (g.flip()) {
            put("arc", base_arc(c, g).build());
            a.push_back("-Y");
        }
        break;
    case 1:
    case 2: {
        Arc b = base_arc(c, g);
        put("arc", b.build());
        bool tree = g.chance(30);
        put("f", g.content(tree ? 4096 * (size_t)g.range(1, 3) : (size_t)g.edge_size(9000)));
        a = {"add", "arc", "-p", "newpart", "-f", "f"};
        if (tree) {
            a.push_back("-e");
            a.push_back("merkle");
            Bytes d = (*files)["f"].data;
            canon = [b, d](const Bytes &f) {
                Arc w = b;
                if (f.size() < 4096)
                    return Bytes();
                for (auto &m : ref::parse(f).metas)
                    if (m.id == ID_SALT && m.ref == ref::id("newpart")) {
                        w.add_with_tree(ref::id("newpart"), d, m.data, 0);
                        w.update_hash();
                        return w.build();
                    }
                return Bytes();
            };
            biggest = b.build().size() + d.size() + 4096;
        } else if (g.chance(20)) {
            put("f", slurp(keydir() + "p256a.pub.pem"));
            a.push_back("-e");
            a.push_back("key");
        }
        break;
    }
    case 3: {
        put("arc", base_arc(c, g).build());
        if (g.flip())
            a = {"add", "arc", "-m", "note", "-s", "some text"};
        else
            a = {"set", "arc", "-k", "0x1234", "-i", "0x777"};
        break;
    }
    case 4: { // delete
        Arc b = base_arc(c, g);
        if (b.parts.empty())
            b.add(0x1000, Bytes(700, 5), 0), b.update_hash();
        put("arc", b.build());
        if (g.chance(30))
            a = {"delete", "arc", "--all"};
        else
            a = {"delete", "arc", "-p", strf("0x%x", b.parts[g.below(b.parts.size())].id)};
        break;
    }
    case 5: { // a ready made signature
        Arc b = base_arc(c, g);
        b.sig_kind = 2;
        put("arc", b.build());
        put("sig", g.content((size_t)g.range(1, 512)));
        a = {"sign", "arc", "-f", "sig"};
        if (g.chance(30)) {
            a = {"sign", "arc", "-k", keydir() + "p256a.p8.der"};
            std::string tmp = c.path("v");
            Bytes want = b.build();
            canon = [want, tmp](const Bytes &f) {
                if (f.size() < 4096)
                    return Bytes();
                write_file(tmp, f);
                if (!cli::run("/", {"verify", tmp, "-k", keydir() + "p256a.pub.pem"}).ok())
                    return Bytes();
                Bytes w = want;
                std::copy(f.begin() + ref::H_SIG, f.begin() + 4096, w.begin() + ref::H_SIG);
                put16(w, ref::H_SIGSZ, ref::le(f, ref::H_SIGSZ, 2));
                return w;
            };
            biggest = want.size();
        }
        break;
    }
    case 6: { // extract
        Arc b = base_arc(c, g);
        if (b.parts.empty())
            b.add(0x1000, g.content((size_t)g.range(1, 9000)), 0), b.update_hash();
        b.add_meta(0x55, 0, g.content((size_t)g.range(1, 60)));
        put("arc", b.build());
        a = {"extract", "arc"};
        if (g.chance(70)) {
            a.push_back("-p");
            a.push_back(strf("0x%x", b.parts[g.below(b.parts.size())].id));
        } else {
            a.push_back("-m");
            a.push_back("0x55");
        }
        if (g.flip()) {
            a.push_back("-o");
            a.push_back("out");
        } else
            keep_out = true;
        break;
    }
    default: { // transport
        World w = make_world(c, g);
        put("in", w.in.build());
        put("org", w.org.build());
        bool encode = g.flip();
        if (!encode) {
            std::string i = c.path("i"), o = c.path("o"), e = c.path("e");
            write_file(i, w.in.build());
            write_file(o, w.org.build());
            if (file_code(true, i, e, o) != BPAK_OK) {
                c.label("clean run refused");
                throw Discard{};
            }
            put("in", slurp(e));
        }
        a = {"transport", "in", encode ? "-E" : "-D", "-O", "org", "-o", "out"};
        if (g.chance(20))
            a = {"transport", "in", "-a", "-r", strf("0x%x", w.in.parts[0].id), "-e", "bsdiff", "-d", "bspatch"};
        break;
    }
    }
    c.label(a[0] + (keep_out ? " to standard output" : ""));
    auto out = std::make_shared<Bytes>();
    Job j;
    j.what = "bpak " + cli::join(a);
    j.reset = [dir, files]() {
        mkdir(dir.c_str(), 0755);
        for (auto &x : cli::snap(dir))
            unlink((dir + "/" + x.first).c_str());
        for (auto &f : *files)
            write_file(dir + "/" + f.first, f.second.data);
        srandom(7);
    };
    j.run = [dir, a, out, keep_out]() {
        cli::Res r = cli::run(dir, a);
        if (keep_out)
            out->assign(r.out.begin(), r.out.end());
        return r.status;
    };
    j.canon = canon;
    j.biggest = biggest;
    j.files = [dir, out]() {
        std::map<std::string, Bytes> m;
        for (auto &x : cli::snap(dir))
            m[x.first] = x.second.data;
        m["standard output"] = *out;
        return m;
    };
    search(c, g, j, false);
}

static std::vector<Prop> props = {
    {"C25", "archive histories", histories, 20000, 400000,
     "histories (create, add, add with tree, add key, sign, set, raw signature, delete, delete all, metadata, extract, reopen, close) on new and existing archives, run once on good storage and then several times with writing failing from a random byte position on, from a random file call to the end or for a window of calls; if every step reports success all files must equal those of the good run; non-trivial: the failure made some step report an error in at least one run", 60},
    {"C25", "transport", transport, 2500, 40000, "encoding and decoding of archive pairs, the same faults; non-trivial: as above", 60},
    {"C25", "command line", commands, 1500, 20000, "single commands (create, add, set, sign, delete, extract to a file or standard output, transport), the same faults within the process; non-trivial: as above", 60},
};
PBT_MAIN(props)
