// C35 interrupted operations.  PBT_NEEDS_CLI
// PBT_WRAP(fwrite) PBT_WRAP(fseek) PBT_WRAP(fseeko) PBT_WRAP(fflush) PBT_WRAP(fclose) PBT_WRAP(ftruncate) PBT_WRAP(write) PBT_WRAP(pwrite) PBT_WRAP(fopen)
#include "world.hh"
#include "cli.hh"
#include <bpak/crypto.h>
#include <sys/wait.h>
extern "C" {
#include <bpak/key.h>
}
using namespace pbt;
using namespace model;
using namespace world;

// ---------------------------------------------------------------- the process ends at a file call
// Nothing is ended: before every file call the file is looked at as it is then, which is what the end of the process at that
// point would leave.  Data in the buffers of the process is lost then; a second kind of run writes it before each call (as
// with smaller buffers) and takes each write itself as done in part.
struct Left {
    uint64_t call;
    unsigned part; // 0, or the part of the call that was done, of 1000
    Bytes data;
    bool exists;
};
static struct {
    bool on = false, flush = false;
    uint64_t calls = 0;
    std::string file;
    FILE *out = nullptr; // left contents, one after another
    uint32_t last = 0;
    bool last_ex = true;
    size_t buf = 0;
    uint64_t rnd = 1;
} W;
extern "C" int __real_fflush(FILE *f);
extern "C" int __real_fclose(FILE *f);
extern "C" size_t __real_fwrite(const void *p, size_t s, size_t n, FILE *f);
static void left_is(const Bytes &b, bool ex, unsigned part)
{
    uint32_t h = ref::crc32(0, b.data(), b.size());
    if (h == W.last && ex == W.last_ex)
        return;
    W.last = h;
    W.last_ex = ex;
    uint64_t head[4] = {W.calls, part, b.size(), ex};
    __real_fwrite(head, sizeof head, 1, W.out);
    __real_fwrite(b.data(), 1, b.size(), W.out);
}
static Bytes look(bool &ex)
{
    Bytes b;
    int fd = open(W.file.c_str(), O_RDONLY | O_CLOEXEC);
    ex = fd >= 0;
    if (ex) {
        struct stat st;
        if (fstat(fd, &st) == 0 && st.st_size > 0) {
            b.resize((size_t)st.st_size);
            if (pread(fd, b.data(), b.size(), 0) != (ssize_t)b.size())
                abort();
        }
        close(fd);
    }
    return b;
}
static void tick(FILE *f = nullptr, const uint8_t *p = nullptr, size_t n = 0)
{
    if (!W.on)
        return;
    int e = errno;
    bool ex;
    if (W.flush)
        __real_fflush(nullptr);
    Bytes b = look(ex);
    left_is(b, ex, 0);
    long pos;
    if (W.flush && f && n > 1 && f != stdout && f != stderr && (pos = ftell(f)) > 0) { // a header (at 0) reaches the file in one piece
        struct stat a, s;
        if (fstat(fileno(f), &a) == 0 && stat(W.file.c_str(), &s) == 0 && a.st_ino == s.st_ino && a.st_dev == s.st_dev) {
            W.rnd = W.rnd * 6364136223846793005ull + 1442695040888963407ull;
            unsigned part = 1 + (unsigned)((W.rnd >> 33) % 999);
            size_t k = n * part / 1000;
            if (b.size() < (size_t)pos + k)
                b.resize((size_t)pos + k);
            std::copy(p, p + k, b.begin() + pos);
            left_is(b, ex, part);
        }
    }
    W.calls++;
    errno = e;
}
extern "C" {
int __wrap_fflush(FILE *f)
{
    if (f && f != stdout && f != stderr)
        tick();
    return __real_fflush(f);
}
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { return tick(f, (const uint8_t *)p, s * n), __real_fwrite(p, s, n, f); }
int __real_fseek(FILE *f, long o, int w);
int __wrap_fseek(FILE *f, long o, int w) { return tick(), __real_fseek(f, o, w); }
int __real_fseeko(FILE *f, off_t o, int w);
int __wrap_fseeko(FILE *f, off_t o, int w) { return tick(), __real_fseeko(f, o, w); }
int __wrap_fclose(FILE *f) { return tick(), __real_fclose(f); }
int __real_ftruncate(int fd, off_t n);
int __wrap_ftruncate(int fd, off_t n) { return tick(), __real_ftruncate(fd, n); }
ssize_t __real_write(int fd, const void *b, size_t n);
ssize_t __wrap_write(int fd, const void *b, size_t n) { return tick(), __real_write(fd, b, n); }
ssize_t __real_pwrite(int fd, const void *b, size_t n, off_t o);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { return tick(), __real_pwrite(fd, b, n, o); }
FILE *__real_fopen(const char *n, const char *m);
FILE *__wrap_fopen(const char *n, const char *m)
{
    tick();
    FILE *f = __real_fopen(n, m);
    if (f && W.on && W.buf) {
        static char pool[32][65536];
        static unsigned next;
        setvbuf(f, pool[next++ % 32], _IOFBF, W.buf);
    }
    return f;
}
}
// runs fn and returns what its end at any file call would have left of the file; the result of fn goes to rc
static std::vector<Left> interrupted(Case &c, Gen &g, const std::string &file, std::function<int()> fn, bool flush, int &rc)
{
    std::string log = c.path("left");
    W.file = file;
    W.calls = 0;
    W.last = 0;
    W.last_ex = true;
    W.flush = flush;
    W.rnd = g.draw(1ull << 32);
    W.out = __real_fopen(log.c_str(), "wb+");
    if (!W.out)
        FAILF("harness: cannot write");
    setvbuf(W.out, nullptr, _IONBF, 0);
    W.on = true;
    rc = fn();
    W.flush = false;
    tick();
    W.on = false;
    __real_fclose(W.out);
    std::vector<Left> r;
    Bytes b = slurp(log);
    size_t o = 0;
    while (o + 32 <= b.size()) {
        uint64_t h[4];
        memcpy(h, &b[o], 32);
        o += 32;
        if (h[2] > b.size() - o)
            FAILF("harness: log");
        r.push_back({h[0], (unsigned)h[1], Bytes(b.begin() + (long)o, b.begin() + (long)(o + h[2])), h[3] != 0});
        o += h[2];
    }
    unlink(log.c_str());
    return r;
}

// ---- signatures that do not depend on random numbers
static int fc_verify(const uint8_t *, size_t, const uint8_t *, size_t, enum bpak_hash_kind, struct bpak_key *, bool *v)
{
    *v = false;
    return -BPAK_NOT_SUPPORTED;
}
static int fc_sign(const uint8_t *h, size_t hn, enum bpak_hash_kind, struct bpak_key *k, uint8_t *s, size_t *sn)
{
    Bytes in(k->data, k->data + k->size);
    in.insert(in.end(), h, h + hn);
    Bytes w = ref::hash(2, in);
    if (*sn < w.size())
        return -BPAK_SIZE_ERROR;
    memcpy(s, w.data(), w.size());
    *sn = w.size();
    return BPAK_OK;
}
static int fc_parse(const uint8_t *b, size_t n, struct bpak_key **out)
{
    bpak_key *k = (bpak_key *)bpak_calloc(1, sizeof(bpak_key) + n);
    if (!k)
        return -BPAK_FAILED;
    k->size = (uint16_t)n;
    k->kind = BPAK_KEY_PUB_PRIME256v1;
    memcpy(k->data, b, n);
    *out = k;
    return BPAK_OK;
}
static int fc_load(const char *f, struct bpak_key **out)
{
    Bytes d = slurp(f);
    return d.empty() ? -BPAK_KEY_DECODE : fc_parse(d.data(), std::min<size_t>(d.size(), 700), out);
}

// ---------------------------------------------------------------- what a file holds
struct Part {
    uint32_t id;
    uint64_t size;
    uint16_t pad;
    uint8_t flags;
    Bytes data;
    bool operator==(const Part &o) const { return id == o.id && size == o.size && pad == o.pad && flags == o.flags && data == o.data; }
};
struct View {
    bool whole = false;     // header and all parts are there
    bool hash_ok = false;   // the payload hash is that of the protected parts
    std::vector<Part> parts;
    std::vector<std::string> rest; // metadata entries and fields, as text
    bool sound() const { return whole && hash_ok; }
};
static View view(const Bytes &f)
{
    View v;
    if (f.size() < 4096 || ref::le(f, 0, 4) != 0x42504132)
        return v;
    ref::Header h = ref::parse(f);
    if (h.hash_kind < 1 || h.hash_kind > 3)
        return v;
    v.whole = true;
    uint64_t off = 4096;
    for (auto &p : h.parts) {
        uint64_t n = p.stored();
        Part q{p.id, p.size, p.pad, p.flags, {}};
        if (n > f.size() || off > f.size() - n) {
            v.whole = false;
            return v;
        }
        q.data.assign(f.begin() + (long)off, f.begin() + (long)(off + n));
        off += n;
        v.parts.push_back(q);
    }
    for (auto &m : h.metas)
        v.rest.push_back(strf("metadata %08x/%08x ", m.id, m.ref) + hexs(m.data.data(), m.data.size()));
    v.rest.push_back(strf("key id %08x", h.key_id));
    v.rest.push_back(strf("keystore id %08x", h.ks_id));
    v.rest.push_back(strf("signature %u ", h.sig_sz) + (h.sig_sz <= 512 ? hexs(h.signature.data(), h.sig_sz) : ""));
    Bytes want = ref::payload_hash(f);
    v.hash_ok = std::equal(want.begin(), want.end(), h.payload_hash.begin());
    return v;
}
// f must be between the states a and b: nothing that is in both is missing, nothing that is in neither is there.
static std::string between(const View &f, const View &a, const View &b, bool excluded)
{
    auto in = [&](const Part &p, const View &v) {
        for (auto &q : v.parts)
            if (p == q || (!excluded && (p.flags & 1) && p.id == q.id && p.size == q.size && p.flags == q.flags))
                return true;
        return false;
    };
    for (auto &p : f.parts)
        if (!in(p, a) && !in(p, b))
            return strf("part %08x (%zu bytes) is neither as before nor as after", p.id, p.data.size());
    for (auto &p : a.parts)
        if (in(p, b) && !in(p, f))
            return strf("part %08x (%zu bytes) is missing or changed", p.id, p.data.size());
    auto has = [](const View &v, const std::string &s) { return std::find(v.rest.begin(), v.rest.end(), s) != v.rest.end(); };
    for (auto &s : f.rest)
        if (!has(a, s) && !has(b, s))
            return "neither as before nor as after: " + s.substr(0, 100);
    for (auto &s : a.rest)
        if (has(b, s) && !has(f, s))
            return "missing: " + s.substr(0, 100);
    return "";
}
static void judge(const Bytes &f, const std::vector<View> &states, bool adds, const std::string &when)
{
    View v = view(f);
    if (adds)
        CHECK(v.sound(), "%s: the archive had to stay sound, but %s", when.c_str(),
              f.size() < 4096 ? "it is cut" : !v.whole ? "a part it lists is not there" : "its payload hash is wrong");
    if (!v.sound())
        return;
    std::string why, first;
    if (states.size() == 1) {
        why = between(v, states[0], states[0], adds);
        CHECK(why.empty(), "%s: the archive looks sound, but %s", when.c_str(), why.c_str());
        return;
    }
    for (size_t i = 0; i + 1 < states.size(); i++) {
        why = between(v, states[i], states[i + 1], adds);
        if (why.empty())
            return;
        if (first.empty())
            first = why;
    }
    FAILF("%s: the archive looks sound, but %s", when.c_str(), first.c_str());
}

static Arc base_arc(Case &c, Gen &g)
{
    arcgen::Opt o;
    o.max_parts = 4;
    o.max_size = c.thorough ? 30000 : 12000;
    o.max_blocks = 3;
    Arc a = arcgen::make(g, o);
    arcgen::describe(c, a);
    return a;
}
static std::string how_str(const Left &l, bool flush)
{
    return strf("interrupted at file call %llu (%s)", (unsigned long long)l.call,
                l.part ? strf("done to %u/1000", l.part).c_str() : flush ? "buffered data written" : "buffered data lost");
}

// ---------------------------------------------------------------- archive histories
static void histories(Case &c)
{
    Gen &g = c.g;
    bpak_crypto_setup(fc_verify, fc_sign, fc_load, fc_load, fc_parse);
    enum { ADD, TREE, KEY, SIGN, HDR, RAW, DEL, ALL, META, REOPEN };
    struct Step {
        int op;
        std::string a, b;
        uint32_t id;
        Bytes d;
        bool flag;
    };
    std::vector<Step> steps;
    Arc base = base_arc(c, g);
    Bytes start = base.build();
    if (g.chance(15))
        start.resize(start.size() + (size_t)g.range(1, 5000), 0xee); // left from an earlier interruption
    bool adds = g.chance(60);
    std::vector<uint32_t> ids;
    for (auto &p : base.parts)
        ids.push_back(p.id);
    size_t n = (size_t)g.range(1, 4);
    std::string desc, file = c.path("arc");
    for (size_t i = 0; i < n; i++) {
        Step s{};
        s.op = (int)g.weighted({4, 2, 2, 2, 1, 1, adds ? 0u : 6u, adds ? 0u : 2u, 2, 1});
        s.flag = g.flip();
        if (s.op == DEL && ids.empty())
            s.op = ADD;
        switch (s.op) {
        case ADD:
        case TREE:
            s.a = c.path(strf("in%zu", i));
            s.b = strf("n%zu", i);
            write_file(s.a, g.content(s.op == TREE ? 4096 * (size_t)g.range(1, 3) : (size_t)g.edge_size(c.thorough ? 30000 : 12000)));
            ids.push_back(ref::id(s.b));
            if (s.op == TREE)
                ids.push_back(ref::tree_id(ref::id(s.b)));
            break;
        case KEY:
            s.a = keydir() + "p256a.pub.pem";
            s.b = strf("n%zu", i);
            ids.push_back(ref::id(s.b));
            break;
        case SIGN: s.a = keydir() + "p256a.p8.der"; break;
        case HDR: s.id = (uint32_t)g.draw(1ull << 32); break;
        case RAW:
        case META: s.d = g.content((size_t)g.range(1, s.op == RAW ? 512 : 40)); break;
        case DEL: {
            size_t k = (size_t)g.below(ids.size());
            s.id = ids[k];
            ids.erase(ids.begin() + (long)k);
            break;
        }
        case ALL: ids.clear(); break;
        }
        desc += strf(" %s", (const char *[]){"add", "add-tree", "add-key", "sign", "set-key-id", "raw-signature", "delete", "delete-all", "add-meta", "reopen"}[s.op]);
        if (s.op == ADD || s.op == TREE)
            desc += strf("(%zu)", slurp(s.a).size());
        if (s.op == DEL)
            desc += strf("(%08x)", s.id);
        steps.push_back(s);
    }
    c.log("history:%s\n", desc.c_str());
    auto run = [&](size_t upto) -> int {
        srandom(7);
        Pkg p;
        int rc = p.open_file(file, "rb+");
        size_t done = 0;
        for (auto &s : steps) {
            if (rc || done++ == upto)
                break;
            struct bpak_header *h = bpak_pkg_header(p.p);
            switch (s.op) {
            case ADD: rc = bpak_pkg_add_file(p.p, s.a.c_str(), s.b.c_str(), s.flag ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0); break;
            case TREE: rc = bpak_pkg_add_file_with_merkle_tree(p.p, s.a.c_str(), s.b.c_str(), s.flag ? BPAK_FLAG_EXCLUDE_FROM_HASH : 0); break;
            case KEY: rc = bpak_pkg_add_key(p.p, s.a.c_str(), s.b.c_str(), 0); break;
            case SIGN: rc = bpak_pkg_sign(p.p, s.a.c_str()); break;
            case HDR:
                h->key_id = s.id;
                rc = bpak_pkg_write_header(p.p);
                break;
            case RAW: rc = bpak_pkg_write_raw_signature(p.p, s.d.data(), s.d.size()); break;
            case DEL: rc = bpak_pkg_delete_part(p.p, s.id, s.flag); break;
            case ALL: rc = bpak_pkg_delete_all_parts(p.p, s.flag); break;
            case META: {
                struct bpak_meta_header *m = nullptr;
                rc = bpak_add_meta(h, 0x4711 + (uint32_t)done, 0, (uint16_t)s.d.size(), &m);
                if (rc == BPAK_OK) {
                    memcpy(bpak_get_meta_ptr(h, m, uint8_t), s.d.data(), s.d.size());
                    rc = bpak_pkg_write_header(p.p);
                }
                break;
            }
            case REOPEN:
                rc = p.close();
                if (!rc)
                    rc = p.open_file(file, "rb+");
                break;
            }
        }
        int cr = p.close();
        return rc ? rc : cr;
    };
    std::vector<View> states;
    for (size_t i = 0; i <= n; i++) {
        write_file(file, start);
        int rc = run(i);
        if (rc != 0) {
            c.label("refused");
            throw Discard{};
        }
        states.push_back(view(slurp(file)));
        CHECK(states.back().sound(), "after %zu steps the archive is not sound", i);
    }
    W.buf = g.pick({0, 0, 512, 8192, 65536});
    bool flush = g.chance(60);
    write_file(file, start);
    int rc0;
    auto left = interrupted(c, g, file, [&]() { return run(n); }, flush, rc0);
    CHECK(rc0 == 0 && !left.empty(), "harness: not repeatable (%d)", rc0);
    if (left.size() > 2)
        c.nontrivial();
    size_t go_on = (size_t)g.below(left.size());
    for (size_t k = 0; k < left.size(); k++) {
        const Bytes &f = left[k].data;
        std::string when = how_str(left[k], flush);
        judge(f, states, adds, when);
        if (!adds || k != go_on)
            continue;
        // work goes on with what is left
        write_file(file, f);
        View was = view(f);
        Pkg p;
        CHECK(p.open_file(file, "rb+") == BPAK_OK, "%s: the archive cannot be opened any more", when.c_str());
        std::string in = c.path("after");
        Bytes d = g.content((size_t)g.edge_size(6000));
        write_file(in, d);
        int rc = bpak_pkg_add_file(p.p, in.c_str(), "after", 0);
        int cr = p.close();
        if (rc != BPAK_OK)
            continue; // full tables
        CHECK(cr == BPAK_OK, "%s: adding a part afterwards: close %d", when.c_str(), cr);
        View v = view(slurp(file));
        CHECK(v.sound(), "%s: adding a part afterwards leaves an archive that is not sound", when.c_str());
        CHECK(v.parts.size() == was.parts.size() + 1 && std::equal(was.parts.begin(), was.parts.end(), v.parts.begin()), "%s: adding a part afterwards damages other parts",
              when.c_str());
        Bytes st = v.parts.back().data;
        CHECK(st.size() >= d.size() && std::equal(d.begin(), d.end(), st.begin()), "%s: the part added afterwards has other contents", when.c_str());
    }
    c.label(adds ? "adding only" : "deletions");
}

// ---------------------------------------------------------------- transport
static int coded(bool encode, const std::string &in, const std::string &out, const std::string &org)
{
    Pkg i, o, r;
    int rc = i.open_file(in, "rb");
    rc = rc ? rc : r.open_file(org, "rb");
    rc = rc ? rc : o.open_file(out, "wb+");
    rc = rc ? rc : encode ? bpak_pkg_transport_encode(i.p, o.p, r.p) : bpak_pkg_transport_decode(i.p, o.p, r.p);
    int cr = o.close();
    return rc ? rc : cr;
}
static bool any_protected(const View &v)
{
    for (auto &p : v.parts)
        if (!(p.flags & 1) && !p.data.empty())
            return true;
    return false;
}
// a new, empty archive is no result, and one with parts still marked as coded says so
static bool claims(const View &v, const View &want)
{
    if (!v.sound() || v.parts.empty())
        return false;
    for (size_t i = 0; i < v.parts.size(); i++)
        if ((v.parts[i].flags & 2) && !(i < want.parts.size() && (want.parts[i].flags & 2)))
            return false;
    return true;
}
static void transport(Case &c)
{
    Gen &g = c.g;
    World w = make_world(c, g);
    std::string in = c.path("in"), org = c.path("org"), enc = c.path("enc"), dec = c.path("dec");
    Bytes inf = w.in.build(), orgf = w.org.build();
    write_file(in, inf);
    write_file(org, orgf);
    bool encode = g.flip(), cmdline = g.chance(25);
    Bytes encf;
    if (file_code(true, in, enc, org) != BPAK_OK) {
        c.label("refused");
        throw Discard{};
    }
    encf = slurp(enc);
    View want = view(inf);
    CHECK(want.sound(), "harness: input archive");
    std::string from = encode ? in : enc, to = encode ? c.path("out") : dec;
    W.buf = g.pick({0, 0, 512, 8192, 65536});
    auto run = [&]() -> int {
        return cmdline ? cli::run("/", {"transport", from, encode ? "-E" : "-D", "-O", org, "-o", to}).status : coded(encode, from, to, org);
    };
    bool flush = g.chance(60);
    unlink(to.c_str());
    int rc;
    auto left = interrupted(c, g, to, run, flush, rc);
    CHECK(rc == 0, "harness: coding fails now and then (%d)", rc);
    CHECK(slurp(in) == inf && slurp(org) == orgf && slurp(enc) == encf, "an input file was changed");
    for (auto &l : left) {
        std::string when = how_str(l, flush);
        const Bytes &f = l.data;
        if (!any_protected(want))
            continue;
        c.nontrivial();
        if (!encode) {
            View v = view(f);
            if (claims(v, want)) {
                std::string why = between(v, want, want, false);
                CHECK(why.empty(), "decoding, %s: the output looks sound, but %s", when.c_str(), why.c_str());
            }
        } else if (f.size() >= 4096) {
            write_file(to, f);
            unlink(dec.c_str());
            Pkg i;
            if (i.open_file(to, "rb") != BPAK_OK)
                continue;
            i.close();
            if (coded(false, to, dec, org) != BPAK_OK)
                continue;
            View v = view(slurp(dec));
            if (claims(v, want)) {
                std::string why = between(v, want, want, false);
                CHECK(why.empty(), "encoding, %s: the output can be decoded to an archive that looks sound, but %s", when.c_str(), why.c_str());
            }
        }
    }
    c.label(encode ? "encode" : "decode");
}

// ---------------------------------------------------------------- command line
static void commands(Case &c)
{
    Gen &g = c.g;
    bpak_crypto_setup(fc_verify, fc_sign, fc_load, fc_load, fc_parse);
    std::string dir = c.path("d"), file = dir + "/arc";
    mkdir(dir.c_str(), 0755);
    Arc b = base_arc(c, g);
    bool adds = true, exists = true;
    cli::Argv a;
    write_file(dir + "/f", g.content((size_t)g.edge_size(12000)));
    switch (g.below(8)) {
    case 0:
    case 1:
        a = {"add", "arc", "-p", "newpart", "-f", "f"};
        if (g.chance(30)) {
            write_file(dir + "/f", slurp(keydir() + "p256a.pub.pem"));
            a.push_back("-e");
            a.push_back("key");
        }
        break;
    case 2: a = {"add", "arc", "-m", "note", "-s", g.flip() ? "some text" : "t"}; break;
    case 3: a = {"set", "arc", "-k", "0x1234", "-i", "0x777"}; break;
    case 4:
        if (b.parts.empty())
            b.add(0x1000, Bytes(700, 5), 0), b.update_hash();
        adds = false;
        a = {"delete", "arc", "-p", strf("0x%x", b.parts[g.below(b.parts.size())].id)};
        if (g.chance(30))
            a = {"delete", "arc", "--all"};
        break;
    case 5:
        write_file(dir + "/sig", g.content((size_t)g.range(1, 512)));
        a = {"sign", "arc", "-f", "sig"};
        if (g.chance(50))
            a = {"sign", "arc", "-k", keydir() + "p256a.p8.der"};
        break;
    case 6:
        if (b.parts.empty() || !b.meta_fits(32) || b.find_meta(ID_TRANSPORT, b.parts[0].id) >= 0)
            throw Discard{};
        a = {"transport", "arc", "-a", "-r", strf("0x%x", b.parts[0].id), "-e", "bsdiff", "-d", "bspatch"};
        break;
    default:
        exists = g.flip();
        adds = false;
        a = exists ? cli::Argv{"create", "arc", "-Y"} : cli::Argv{"create", "arc"};
        break;
    }
    Bytes start = b.build();
    auto reset = [&]() {
        unlink(file.c_str());
        if (exists)
            write_file(file, start);
    };
    c.log("bpak %s\n", cli::join(a).c_str());
    c.label(a[0]);
    W.buf = g.pick({0, 0, 512, 8192, 65536});
    bool flush = g.chance(60);
    reset();
    int rc;
    auto left = interrupted(c, g, file, [&]() { return cli::run(dir, a).status; }, flush, rc);
    if (rc != 0) {
        c.label("refused");
        throw Discard{};
    }
    std::vector<View> states;
    states.push_back(view(start));
    states.push_back(view(slurp(file)));
    CHECK(states[0].sound() && states[1].sound(), "the archive is not sound %s", states[0].sound() ? "afterwards" : "before");
    if (left.size() > 2)
        c.nontrivial();
    for (auto &l : left)
        judge(l.data, states, adds, how_str(l, flush));
}

static std::vector<Prop> props = {
    {"C35", "archive histories", histories, 6000, 120000,
     "histories (add, add with tree, add key, sign, set, raw signature, delete, delete all, metadata, reopen) on generated archives in which the process may end at every file call (all are looked at), with the "
     "buffered data lost, written, or the call done in part; what is left is compared with the states before and after each step; histories that only add must leave a sound archive and can be "
     "continued; non-trivial: at least three different contents are left", 60},
    {"C35", "transport", transport, 2500, 40000, "encoding and decoding of archive pairs (library and command line), in the same way; non-trivial: the archive has a part the payload hash covers", 60},
    {"C35", "command line", commands, 2000, 30000, "single commands (create, add, set, sign, delete, transport), in the same way; non-trivial: as above", 60},
};
PBT_MAIN(props)
