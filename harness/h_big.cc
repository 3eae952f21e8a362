// C43 sizes and offsets beyond 2 and 4 GiB.   PBT_NEEDS_CLI PBT_WRAP(fopen) PBT_WRAP(fileno) PBT_LIB(lzma)
// Big data is zero apart from islands.  Files are sparse; the streams of the code under test skip holes instead of
// reading them, and the hash installed by the user can skip runs of zeros, so that gigabytes take seconds.
#include "world.hh"
#include "stream.hh"
#include "cli.hh"
#include <bpak/crypto.h>
#include <lzma.h>
#include <sys/mman.h>
#include <sys/stat.h>
extern "C" {
#include <bpak/verify.h>
#include <bpak/merkle.h>
#include <bpak/bspatch.h>
}
using namespace pbt;
using namespace model;
using namespace world;
typedef uint64_t u64;

static const size_t Z = 1u << 20;
static uint8_t zeros[Z];
static bool zero(const uint8_t *b, size_t n)
{
    while (n > Z) {
        if (memcmp(b, zeros, Z))
            return false;
        b += Z;
        n -= Z;
    }
    return !memcmp(b, zeros, n);
}
// ---------------------------------------------------------------- data
struct Big {
    u64 size = 0;
    std::map<u64, Bytes> isl; // no two overlap
    void fill(u64 o, uint8_t *b, size_t n) const
    {
        memset(b, 0, n);
        each(o, n, [&](u64 at, const uint8_t *p, size_t k) { memcpy(b + (at - o), p, k); });
    }
    template <class F> void each(u64 o, u64 n, F f) const // the islands in [o,o+n)
    {
        auto it = isl.upper_bound(o);
        if (it != isl.begin())
            --it;
        for (; it != isl.end() && it->first < o + n; ++it) {
            u64 a = std::max(o, it->first), e = std::min(o + n, it->first + it->second.size());
            if (a < e)
                f(a, it->second.data() + (a - it->first), (size_t)(e - a));
        }
    }
    bool blank(u64 o, u64 n) const
    {
        bool r = true;
        each(o, n, [&](u64, const uint8_t *, size_t) { r = false; });
        return r;
    }
    void island(u64 at, const Bytes &b)
    {
        if (at + b.size() <= size && blank(at, b.size()))
            isl[at] = b;
    }
};
static u64 big_size(Gen &g, u64 max)
{
    static const u64 base[] = {1ull << 32, 1ull << 31, (1ull << 32) + (1ull << 31), 1ull << 33, 3ull << 32};
    for (;;) {
        u64 b = base[g.weighted({8, 4, 2, 1, 1})];
        u64 s = b + (g.chance(30) ? g.range(0, 1u << 20) : g.pick<u64>({0, 1, 512, 4096, 511, 4097, 8192}));
        if (g.chance(25))
            s = b - g.pick<u64>({1, 512, 4096, 100});
        if (s <= max)
            return s;
        if (max < base[1])
            return max;
        if (b == base[1])
            return base[1];
    }
}
static Big big(Gen &g, u64 size, bool dense = false)
{
    Big b;
    b.size = size;
    Rng r(g.draw(1u << 30));
    auto bytes = [&](size_t n) {
        Bytes v(n);
        for (auto &x : v)
            x = (uint8_t)(1 + r.next() % 255);
        return v;
    };
    if (dense || size < 4096) {
        if (size)
            b.island(0, bytes((size_t)size));
        return b;
    }
    b.island(0, bytes(1 + r.next() % 40));
    size_t k = 1 + r.next() % 40;
    b.island(size - k, bytes(k));
    for (u64 e : {1ull << 31, 1ull << 32, 1ull << 33, (1ull << 32) + (1ull << 31)})
        for (int i = 0; i < 2; i++)
            if (e < size + 5000)
                b.island(e - 4200 + r.next() % 8400, bytes(1 + r.next() % 24));
    for (u64 o = 0; o < size; o += 1u << 27)
        b.island(o + r.next() % (1u << 27), bytes(1 + r.next() % 24));
    return b;
}

// ---------------------------------------------------------------- a hash that skips zeros
static const u64 MUL = 0x9e3779b97f4a7c15ull | 1;
struct Aff {
    u64 a, b;
}; // s -> a*s+b
static Aff then(Aff f, Aff g) { return {g.a * f.a, g.a * f.b + g.b}; }
static Aff zrun(u64 n)
{
    static Aff p4096;
    static bool have = false;
    auto power = [](u64 k) {
        Aff r = {1, 0}, q = {MUL, 1};
        for (; k; k >>= 1, q = then(q, q))
            if (k & 1)
                r = then(r, q);
        return r;
    };
    if (!have) {
        p4096 = power(4096);
        have = true;
    }
    return n == 4096 ? p4096 : power(n);
}
static u64 start_of(unsigned kind) { return 0x1234567 * kind; }
static void feed(u64 &s, const uint8_t *b, size_t n)
{
    if (n >= 64 && zero(b, n)) {
        Aff z = zrun(n);
        s = s * z.a + z.b;
    } else
        for (size_t i = 0; i < n; i++)
            s = s * MUL + b[i] + 1;
}
static void feed(u64 &s, const Big &d, u64 o, u64 n)
{
    u64 p = o;
    auto gap = [&](u64 to) {
        Aff z = zrun(to - p);
        s = s * z.a + z.b;
    };
    d.each(o, n, [&](u64 at, const uint8_t *b, size_t k) {
        gap(at);
        for (size_t i = 0; i < k; i++)
            s = s * MUL + b[i] + 1;
        p = at + k;
    });
    gap(o + n);
}
static Bytes result(unsigned kind, u64 s)
{
    Bytes r(kind == 1 ? 32 : kind == 2 ? 48 : 64);
    for (size_t i = 0; i < r.size(); i += 8) {
        u64 w = mix64(s + i * 77 + kind);
        memcpy(&r[i], &w, 8);
    }
    return r;
}
static int u_init(bpak_hash_context *c)
{
    if (c->kind < 1 || c->kind > 3)
        return -BPAK_UNSUPPORTED_HASH_ALG;
    c->backend.user_ctx = (void *)start_of(c->kind);
    return BPAK_OK;
}
static int u_update(bpak_hash_context *c, const uint8_t *b, size_t n)
{
    u64 s = (u64)c->backend.user_ctx;
    feed(s, b, n);
    c->backend.user_ctx = (void *)s;
    return BPAK_OK;
}
static int u_final(bpak_hash_context *c, uint8_t *b, size_t n, size_t *out)
{
    Bytes r = result(c->kind, (u64)c->backend.user_ctx);
    if (n < r.size())
        return -BPAK_SIZE_ERROR;
    memcpy(b, r.data(), r.size());
    if (out)
        *out = r.size();
    return BPAK_OK;
}
static void u_free(bpak_hash_context *) {}

// hash tree over data, by that hash
static u64 tree_size(u64 n)
{
    u64 t = 0, l = n;
    do {
        l = ((l / 4096) * 32 + 4095) & ~4095ull;
        t += l;
    } while (l != 4096);
    return t;
}
static Bytes tree_of(const Big &d, const Bytes &salt, Bytes &root)
{
    u64 s0 = start_of(1);
    feed(s0, salt.data(), salt.size());
    auto block = [&](const uint8_t *b) {
        u64 s = s0;
        feed(s, b, 4096);
        return result(1, s);
    };
    Bytes zh = block(zeros);
    Bytes lev((size_t)(((d.size / 4096) * 32 + 4095) & ~4095ull), 0), all;
    for (size_t i = 0; i < d.size / 4096; i++)
        memcpy(&lev[32 * i], zh.data(), 32);
    uint8_t b[4096];
    for (auto &i : d.isl)
        for (u64 k = i.first / 4096; k <= (i.first + i.second.size() - 1) / 4096; k++) {
            d.fill(k * 4096, b, 4096);
            memcpy(&lev[32 * k], block(b).data(), 32);
        }
    all = lev;
    while (lev.size() > 4096) {
        Bytes up(((lev.size() / 4096) * 32 + 4095) & ~(size_t)4095, 0);
        for (size_t i = 0; i < lev.size() / 4096; i++)
            memcpy(&up[32 * i], block(&lev[4096 * i]).data(), 32);
        all.insert(all.begin(), up.begin(), up.end());
        lev = up;
    }
    root = d.size == 4096 ? Bytes(lev.begin(), lev.begin() + 32) : block(lev.data());
    return all;
}

// ---------------------------------------------------------------- streams that skip holes
struct Sparse {
    int fd = -1;
    u64 pos = 0, size = 0;
    u64 h0 = 1, h1 = 0; // known hole
    bool write = false;
};
static bool sparse_on = false;
static std::map<FILE *, Sparse *> sparse;
static ssize_t sp_read(void *u, char *b, size_t n)
{
    Sparse *s = (Sparse *)u;
    struct stat st;
    size_t done = 0;
    while (done < n) {
        if (s->pos >= s->size) {
            fstat(s->fd, &st); // the code under test may have written by the descriptor
            s->size = (u64)st.st_size;
            if (s->pos >= s->size)
                break;
        }
        size_t k = n - done;
        if (s->pos >= s->h0 && s->pos < s->h1) {
            k = (size_t)std::min<u64>(k, s->h1 - s->pos);
            memset(b + done, 0, k);
        } else {
            off_t d = lseek(s->fd, (off_t)s->pos, SEEK_DATA);
            if (d < 0 || (u64)d > s->pos) {
                s->h0 = s->pos;
                s->h1 = d < 0 ? s->size : (u64)d;
                continue;
            }
            ssize_t r = pread(s->fd, b + done, std::min<size_t>(k, 65536), (off_t)s->pos);
            if (r <= 0)
                break;
            k = (size_t)r;
        }
        s->pos += k;
        done += k;
    }
    return (ssize_t)done;
}
static ssize_t sp_write(void *u, const char *b, size_t n)
{
    Sparse *s = (Sparse *)u;
    struct stat st;
    if (!s->write || fstat(s->fd, &st))
        return 0;
    u64 size = (u64)st.st_size;
    if (n >= 512 && zero((const uint8_t *)b, n)) {
        if (s->pos < size && lseek(s->fd, (off_t)s->pos, SEEK_DATA) < (off_t)(s->pos + n) &&
            lseek(s->fd, (off_t)s->pos, SEEK_DATA) >= 0 &&
            fallocate(s->fd, FALLOC_FL_PUNCH_HOLE | FALLOC_FL_KEEP_SIZE, (off_t)s->pos, (off_t)n) != 0 &&
            pwrite(s->fd, b, n, (off_t)s->pos) != (ssize_t)n)
            return 0;
        if (s->pos + n > size && ftruncate(s->fd, (off_t)(s->pos + n)) != 0)
            return 0;
    } else {
        if (pwrite(s->fd, b, n, (off_t)s->pos) != (ssize_t)n)
            return 0;
        s->h0 = 1;
        s->h1 = 0;
    }
    s->pos += n;
    s->size = std::max(size, s->pos);
    return (ssize_t)n;
}
static int sp_seek(void *u, off64_t *o, int w)
{
    Sparse *s = (Sparse *)u;
    struct stat st;
    off64_t b = 0;
    if (w == SEEK_CUR)
        b = (off64_t)s->pos;
    if (w == SEEK_END) {
        fstat(s->fd, &st);
        b = st.st_size;
    }
    if (b + *o < 0)
        return -1;
    s->pos = (u64)(b + *o);
    *o = (off64_t)s->pos;
    return 0;
}
static int sp_close(void *u)
{
    Sparse *s = (Sparse *)u;
    for (auto i = sparse.begin(); i != sparse.end(); ++i)
        if (i->second == s) {
            sparse.erase(i);
            break;
        }
    int r = close(s->fd);
    delete s;
    return r;
}
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" int __real_fileno(FILE *);
extern "C" FILE *__wrap_fopen(const char *f, const char *m)
{
    if (!sparse_on)
        return __real_fopen(f, m);
    bool plus = strchr(m, '+') != nullptr;
    int fl = m[0] == 'r' ? (plus ? O_RDWR : O_RDONLY) : (plus ? O_RDWR : O_WRONLY) | O_CREAT | (m[0] == 'w' ? O_TRUNC : O_APPEND);
    int fd = open(f, fl | O_CLOEXEC, 0666);
    if (fd < 0)
        return nullptr;
    Sparse *s = new Sparse;
    s->fd = fd;
    s->write = fl & (O_RDWR | O_WRONLY);
    FILE *fp = fopencookie(s, m, {sp_read, sp_write, sp_seek, sp_close});
    sparse[fp] = s;
    return fp;
}
extern "C" int __wrap_fileno(FILE *f)
{
    auto i = sparse.find(f);
    if (i == sparse.end())
        return __real_fileno(f);
    i->second->h0 = 1; // the descriptor may be written to
    i->second->h1 = 0;
    return i->second->fd;
}

// ---------------------------------------------------------------- archives
struct BPart {
    std::string name;
    Big d; // stored, without padding
    u64 size = 0; // decoded
    uint8_t flags = 0;
    uint32_t id() const { return ref::id(name); }
    bool coded() const { return flags & 2; }
    u64 pad() const { return -size & 511; }
    u64 stored() const { return coded() ? d.size : size + pad(); }
    uint32_t tid = 0; // a hash tree
    uint32_t pid() const { return tid ? tid : id(); }
    bool nopad = false;
};
struct BArc {
    Arc a; // everything but the parts
    std::vector<BPart> parts;
    int find(uint32_t id) const
    {
        for (size_t i = 0; i < parts.size(); i++)
            if (parts[i].pid() == id)
                return (int)i;
        return -1;
    }
    void update_hash()
    {
        u64 s = start_of(a.hash_kind);
        for (auto &p : parts)
            if (!(p.flags & 1)) {
                feed(s, p.d, 0, p.d.size);
                if (!p.coded())
                    feed(s, zeros, (size_t)p.pad());
            }
        Bytes h = result(a.hash_kind, s);
        std::copy(h.begin(), h.end(), a.phash.begin());
    }
    Bytes header() const
    {
        Bytes h = a.header();
        u64 off = 4096;
        for (size_t i = 0; i < parts.size(); i++) {
            size_t o = ref::H_PARTS + 32 * i;
            const BPart &p = parts[i];
            put(h, o, 4, p.pid());
            put(h, o + 4, 8, p.size);
            put(h, o + 12, 8, off);
            put(h, o + 20, 8, p.coded() ? p.d.size : 0);
            put(h, o + 28, 2, p.pad());
            h[o + 30] = p.flags;
            off += p.size + p.pad();
        }
        return h;
    }
    Big file() const
    {
        Big f;
        f.size = 4096;
        f.isl[0] = header();
        for (auto &p : parts) {
            for (auto &i : p.d.isl)
                f.isl[f.size + i.first] = i.second;
            f.size += p.stored();
        }
        return f;
    }
    u64 pos_of(size_t k) const
    {
        u64 o = 4096;
        for (size_t i = 0; i < k; i++)
            o += parts[i].stored();
        return o;
    }
    u64 work() const
    {
        u64 n = 0;
        for (auto &p : parts)
            n += p.stored();
        return n;
    }
};
static void make_file(const std::string &f, const Big &d)
{
    unlink(f.c_str());
    int fd = open(f.c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0600);
    CHECK(fd >= 0 && ftruncate(fd, (off_t)d.size) == 0, "harness: cannot make a file of %llu bytes: %s", (unsigned long long)d.size, strerror(errno));
    for (auto &i : d.isl)
        CHECK(pwrite(fd, i.second.data(), i.second.size(), (off_t)i.first) == (ssize_t)i.second.size(), "harness: write: %s", strerror(errno));
    ::close(fd);
}
static void same_file(const std::string &f, const Big &d, const char *what)
{
    int fd = open(f.c_str(), O_RDONLY | O_CLOEXEC);
    CHECK(fd >= 0, "%s: there is no file", what);
    struct Close {
        int fd;
        ~Close() { ::close(fd); }
    } cl{fd};
    struct stat st;
    fstat(fd, &st);
    CHECK((u64)st.st_size == d.size, "%s: %llu bytes, expected %llu", what, (unsigned long long)st.st_size, (unsigned long long)d.size);
    Bytes b(65536), w(65536);
    auto hole = [&](u64 o, u64 e) {
        d.each(o, e - o, [&](u64 at, const uint8_t *p, size_t n) {
            for (size_t i = 0; i < n; i++)
                CHECK(p[i] == 0, "%s: byte %llu is 0, expected %02x", what, (unsigned long long)(at + i), p[i]);
        });
    };
    u64 p = 0;
    while (p < d.size) {
        off_t s = lseek(fd, (off_t)p, SEEK_DATA);
        u64 a = s < 0 ? d.size : (u64)s;
        hole(p, a);
        if (a >= d.size)
            break;
        off_t h = lseek(fd, (off_t)a, SEEK_HOLE);
        u64 e = h < 0 ? d.size : (u64)h;
        for (p = a; p < e;) {
            size_t n = (size_t)std::min<u64>(b.size(), e - p);
            CHECK(pread(fd, b.data(), n, (off_t)p) == (ssize_t)n, "harness: read: %s", strerror(errno));
            d.fill(p, w.data(), n);
            if (memcmp(b.data(), w.data(), n))
                for (size_t i = 0; i < n; i++)
                    CHECK(b[i] == w[i], "%s: byte %llu is %02x, expected %02x", what, (unsigned long long)(p + i), b[i], w[i]);
            p += n;
        }
    }
}
static BArc gen_arc(Gen &g, bool bulk, bool uuid_too)
{
    BArc b;
    b.a.hash_kind = (uint8_t)g.range(1, 3);
    if (uuid_too)
        b.a.add_meta(ID_PACKAGE, 0, g.content(16));
    size_t n = (size_t)g.range(2, bulk ? 4 : 6);
    size_t bigs = bulk ? 1 : (size_t)g.range(1, 3);
    std::vector<size_t> where;
    for (size_t i = 0; i < bigs; i++)
        where.push_back((size_t)g.below(n));
    for (size_t i = 0; i < n; i++) {
        BPart p;
        p.name = strf("part-%zu", i);
        bool isbig = std::count(where.begin(), where.end(), i);
        p.d = isbig ? big(g, big_size(g, bulk ? 5ull << 30 : ~0ull >> 1)) : big(g, g.range(1, 6000), true);
        p.size = p.d.size;
        if (isbig ? !bulk || g.chance(30) : g.chance(20))
            p.flags |= 1;
        b.parts.push_back(p);
    }
    b.update_hash();
    return b;
}
static std::string what_is(const BArc &b)
{
    std::string s;
    for (auto &p : b.parts)
        s += strf(" %s:%llu%s%s", p.name.c_str(), (unsigned long long)p.size, p.flags & 1 ? "x" : "", p.coded() ? "t" : "");
    return s;
}
static ssize_t fd_read(off_t o, uint8_t *b, size_t n, void *u)
{
    Sparse *s = (Sparse *)u;
    s->pos = (u64)o;
    return sp_read(u, (char *)b, n);
}
static int verify_file(const std::string &f)
{
    Sparse s;
    s.fd = open(f.c_str(), O_RDONLY | O_CLOEXEC);
    bpak_header h;
    if (pread(s.fd, &h, sizeof h, 0) != sizeof h)
        FAILF("harness: header");
    int rc = bpak_verify_payload(&h, fd_read, 4096, &s);
    ::close(s.fd);
    return rc;
}
static void setup()
{
    bpak_hash_setup(u_init, u_update, u_final, u_free);
    sparse_on = true;
    sparse.clear();
}
static Bytes flat(const Big &d)
{
    Bytes b((size_t)d.size);
    d.fill(0, b.data(), b.size());
    return b;
}

static void archives(Case &c, bool bulk)
{
    Gen &g = c.g;
    setup();
    BArc b = gen_arc(g, bulk, false);
    std::string f = c.path("a.bpak"), in = c.path("in"), x = c.path("x");
    make_file(f, b.file());
    c.log("archive:%s\n", what_is(b).c_str());
    size_t ops = bulk ? 1 : (size_t)g.range(2, 6), next = 10;
    bool any = false;
    for (size_t k = 0; k < ops; k++) {
        bool tool = g.chance(35);
        size_t op = g.weighted({4, 4, 4, 2, 2, 1, 2});
        if (bulk)
            op = g.weighted({2, 4, 4, 1, 2, 0, 4});
        std::string what;
        auto lib = [&](std::function<int(bpak_package *)> fn, const char *mode = "rb+") {
            Pkg p;
            int rc = p.open_file(f, mode);
            CHECK(rc == BPAK_OK, "the archive cannot be opened (%d)", rc);
            rc = fn(p.p);
            int cr = p.close();
            return rc ? rc : cr;
        };
        auto run = [&](const cli::Argv &av, std::function<int(bpak_package *)> fn) {
            if (tool) {
                cli::Res r = cli::run(c.scratch, av);
                what = "bpak " + cli::join(av);
                CHECK(r.ok(), "'%s' failed with status %d: %s", what.c_str(), r.status, r.err.c_str());
            } else {
                int rc = lib(fn);
                CHECK(rc == BPAK_OK, "%s failed (%d)", what.c_str(), rc);
            }
            c.log("%s\n", what.c_str());
        };
        size_t i = b.parts.empty() ? 0 : (size_t)g.below(b.parts.size());
        if (b.parts.empty())
            op = 1;
        switch (op) {
        case 0: { // extract
            BPart &p = b.parts[i];
            if (!bulk && p.d.size > 1u << 20)
                for (i = 0; i < b.parts.size() && b.parts[i].d.size > 1u << 20; i++)
                    ;
            if (i == b.parts.size())
                break;
            BPart &q = b.parts[i];
            what = "extract of " + q.name;
            unlink(x.c_str());
            run({"extract", "a.bpak", "--part", q.name, "--output", "x"}, [&](bpak_package *p) { return bpak_pkg_extract_file(p, q.id(), x.c_str()); });
            same_file(x, q.d, what.c_str());
            unlink(x.c_str());
            any |= b.pos_of(i) > 1u << 31 || q.size > 1u << 31;
            break;
        }
        case 1:
        case 6: { // add
            BPart p;
            p.name = strf("part-%zu", next++);
            bool bigp = bulk && (op == 6 || g.flip());
            p.d = bigp ? big(g, big_size(g, 5ull << 30)) : big(g, g.range(0, 6000), true);
            bool tree = op == 6;
            if (tree) {
                p.d.size &= ~4095ull;
                if (!p.d.size)
                    p.d.size = 4096;
                while (!p.d.isl.empty() && p.d.isl.rbegin()->first + p.d.isl.rbegin()->second.size() > p.d.size)
                    p.d.isl.erase(std::prev(p.d.isl.end()));
            }
            bool key = !bigp && !tree && g.chance(30);
            std::string kf = keydir() + g.pick<const char *>({"p256a", "rsaa", "p521a"}) + ".pub.der";
            if (key) {
                Bytes kd = slurp(kf);
                p.d = Big();
                p.d.size = kd.size();
                p.d.isl[0] = kd;
            }
            p.size = p.d.size;
            if (g.chance(40))
                p.flags = 1;
            make_file(in, p.d);
            what = "add of " + p.name + strf(" (%llu bytes%s)", (unsigned long long)p.size, tree ? ", tree" : key ? ", key" : "");
            u64 at = b.pos_of(b.parts.size());
            cli::Argv av = {"add", "a.bpak", "--part", p.name, "--from-file", "in"};
            if (p.flags)
                av.insert(av.end(), {"--set-flag", "dont-hash"});
            if (tree)
                av.insert(av.end(), {"--encoder", "merkle"});
            if (key)
                av.insert(av.end(), {"--encoder", "key"});
            run(av, [&](bpak_package *q) {
                return key ? bpak_pkg_add_key(q, in.c_str(), p.name.c_str(), p.flags) : tree ? bpak_pkg_add_file_with_merkle_tree(q, in.c_str(), p.name.c_str(), p.flags) : bpak_pkg_add_file(q, in.c_str(), p.name.c_str(), p.flags);
            });
            unlink(in.c_str());
            b.parts.push_back(p);
            if (tree) { // the salt is free
                Bytes h(4096);
                int fd = open(f.c_str(), O_RDONLY | O_CLOEXEC);
                CHECK(fd >= 0 && pread(fd, h.data(), 4096, 0) == 4096, "harness: header");
                ::close(fd);
                Bytes salt;
                for (auto &m : ref::parse(h).metas)
                    if (m.id == ID_SALT && m.ref == p.id())
                        salt = m.data;
                CHECK(salt.size() == 32, "%s: no salt", what.c_str());
                Bytes root, t = tree_of(p.d, salt, root);
                BPart q;
                q.name = p.name + "-hash-tree";
                q.tid = ref::tree_id(p.id());
                q.d.size = q.size = t.size();
                q.d.isl[0] = t;
                q.flags = p.flags;
                b.parts.push_back(q);
                b.a.add_meta(ID_SALT, p.id(), salt);
                b.a.add_meta(ID_ROOT, p.id(), root);
            }
            b.update_hash();
            any |= at > 1u << 31 || p.size > 1u << 31;
            break;
        }
        case 2: { // delete
            u64 behind = 0;
            if (!bulk) { // data that is moved is small
                std::vector<size_t> ok;
                for (i = b.parts.size(); i--;) {
                    if (behind < 1u << 20)
                        ok.push_back(i);
                    behind += b.parts[i].stored();
                }
                i = g.pick(ok);
            }
            BPart p = b.parts[i];
            any |= b.work() > 1u << 31;
            what = "deletion of " + p.name;
            bool meta = g.flip();
            if (tool && p.tid)
                tool = false;
            cli::Argv av = {"delete", "a.bpak", "--part", p.name};
            if (!meta)
                av.push_back("--keep-meta");
            run(av, [&](bpak_package *q) { return bpak_pkg_delete_part(q, p.pid(), meta); });
            b.parts.erase(b.parts.begin() + (long)i);
            if (meta)
                b.a.drop_meta_of(p.pid());
            b.update_hash();
            break;
        }
        case 3: { // sizes
            u64 inst = 0, size = 4096, gi = 0, gs = 0;
            for (auto &p : b.parts) {
                inst += p.size + p.pad();
                size += p.coded() ? p.d.size : p.size;
            }
            what = "sizes";
            int rc = lib([&](bpak_package *p) {
                gi = bpak_pkg_installed_size(p);
                gs = bpak_pkg_size(p);
                return 0;
            }, "rb");
            CHECK(!rc, "open failed (%d)", rc);
            CHECK(gi == inst && gs == size, "sizes %llu and %llu, expected %llu and %llu", (unsigned long long)gi, (unsigned long long)gs, (unsigned long long)inst, (unsigned long long)size);
            any |= inst > 1u << 31;
            break;
        }
        case 4: { // verification
            int rc = verify_file(f);
            bool lost = false; // a hash tree that was deleted
            for (auto &m : b.a.metas)
                lost |= m.id == ID_ROOT && b.find(m.ref) >= 0 && b.find(ref::tree_id(m.ref)) < 0;
            CHECK(!lost || rc != BPAK_OK, "an archive without one of its hash trees is accepted");
            if (lost)
                break;
            CHECK(rc == BPAK_OK, "an intact archive is refused (%d)", rc);
            // and damaged
            std::vector<size_t> h;
            for (size_t q = 0; q < b.parts.size(); q++)
                if (!(b.parts[q].flags & 1) && b.parts[q].stored())
                    h.push_back(q);
            if (h.empty())
                break;
            size_t q = g.pick(h);
            if (bulk)
                for (size_t r : h)
                    if (b.parts[r].d.size > 1u << 30)
                        q = r;
            u64 o = g.below(b.parts[q].stored());
            if (g.flip())
                o = b.parts[q].stored() - 1 - o % std::min<u64>(4096, b.parts[q].stored());
            BArc bad = b;
            Big file = b.file();
            u64 at = b.pos_of(q) + o;
            int fd = open(f.c_str(), O_RDWR | O_CLOEXEC);
            uint8_t v, w;
            CHECK(fd >= 0 && pread(fd, &v, 1, (off_t)at) == 1, "harness: read");
            w = (uint8_t)(v ^ g.range(1, 255));
            CHECK(pwrite(fd, &w, 1, (off_t)at) == 1, "harness: write");
            rc = verify_file(f);
            CHECK(pwrite(fd, &v, 1, (off_t)at) == 1, "harness: write");
            ::close(fd);
            CHECK(rc != BPAK_OK, "byte %llu of part %s was changed, the archive is accepted", (unsigned long long)o, b.parts[q].name.c_str());
            what = "verification";
            any |= at > 1u << 31;
            break;
        }
        case 5: { // the hash of the archive
            what = "update of the hash";
            int rc = lib([&](bpak_package *p) {
                int r = bpak_pkg_update_hash(p, nullptr, nullptr);
                return r ? r : bpak_pkg_write_header(p);
            });
            CHECK(!rc, "%s failed (%d)", what.c_str(), rc);
            b.update_hash();
            any = true;
            break;
        }
        }
        if (!what.empty()) {
            c.label(what.substr(0, what.find(" of ")) + (tool ? " (tool)" : ""));
            same_file(f, b.file(), ("archive after " + what).c_str());
        }
    }
    unlink(f.c_str());
    if (any)
        c.nontrivial();
}
static void behind(Case &c) { archives(c, false); }
static void bulk(Case &c) { archives(c, true); }

// ---------------------------------------------------------------- transport coding
static void transport(Case &c)
{
    Gen &g = c.g;
    setup();
    // the origin and the new archive; parts of a few KiB change, big ones are copied
    BArc in = gen_arc(g, true, true), org;
    std::vector<int> cod;
    org.a = in.a;
    for (auto &p : in.parts) {
        bool isbig = p.size > 1u << 30;
        int k = isbig ? -1 : (int)g.below(4) - 1;
        cod.push_back(k);
        BPart o = p;
        if (k >= 0) {
            o.d = big(g, g.range(1, 6000), true);
            if (g.flip()) { // similar
                o.d = p.d;
                if (!o.d.isl.empty())
                    o.d.isl.begin()->second[g.below(o.d.size)] ^= 0x55;
            }
            o.size = o.d.size;
            in.a.add_transport(p.id(), ENC[k], DEC[k]);
        }
        if (isbig && g.chance(40))
            o.d = big(g, o.size = g.pick<u64>({512, (1ull << 32) + 512, 1ull << 31}));
        org.parts.push_back(o);
    }
    for (size_t k = g.below(3); k; k--)
        std::swap(org.parts[g.below(org.parts.size())], org.parts[g.below(org.parts.size())]);
    in.update_hash();
    org.update_hash();
    std::string fi = c.path("in.bpak"), fo = c.path("org.bpak"), fe = c.path("enc.bpak"), fd = c.path("dec.bpak");
    make_file(fi, in.file());
    make_file(fo, org.file());
    c.log("archive:%s, origin:%s\n", what_is(in).c_str(), what_is(org).c_str());
    auto run = [&](bool enc) {
        std::string a = enc ? "in.bpak" : "enc.bpak", o = enc ? "enc.bpak" : "dec.bpak";
        if (g.flip()) {
            cli::Res r = cli::run(c.scratch, {"transport", a, enc ? "--encode" : "--decode", "--origin", "org.bpak", "--output", o});
            CHECK(r.ok(), "bpak transport %s: status %d: %s", enc ? "--encode" : "--decode", r.status, r.err.c_str());
        } else {
            int rc = file_code(enc, c.path(a), c.path(o), fo);
            CHECK(rc == BPAK_OK, "%s failed (%d)", enc ? "encoding" : "decoding", rc);
        }
    };
    run(true);
    // the encoded archive
    BArc e = in;
    Bytes h(4096);
    int d = open(fe.c_str(), O_RDONLY | O_CLOEXEC);
    CHECK(d >= 0 && pread(d, h.data(), 4096, 0) == 4096, "no encoded archive");
    u64 pos = 4096;
    bool far = false;
    for (size_t i = 0; i < e.parts.size(); i++) {
        BPart &p = e.parts[i];
        if (cod[i] >= 0) {
            u64 ts = ref::le(h, ref::H_PARTS + 32 * i + 20, 8);
            CHECK(ts < 1u << 20, "part %s: transport size %llu", p.name.c_str(), (unsigned long long)ts);
            Bytes st((size_t)ts), raw, got;
            CHECK(pread(d, st.data(), st.size(), (off_t)pos) == (ssize_t)st.size(), "part %s: the file ends inside", p.name.c_str());
            Bytes from = flat(org.parts[(size_t)org.find(p.id())].d), to = flat(p.d);
            from.resize(from.size() + (-from.size() & 511), 0);
            to.resize(to.size() + (-to.size() & 511), 0);
            CHECK(delta::plain(st, cod[i], raw), "part %s: stored data is not a %s stream", p.name.c_str(), delta::comp_name(cod[i]));
            CHECK(delta::ref_apply(raw, from, got) && got == to, "part %s: the delta means other data", p.name.c_str());
            p.flags |= 2;
            p.d = Big();
            p.d.size = ts;
            p.d.isl[0] = st;
            far |= pos > 1u << 31 || org.pos_of((size_t)org.find(p.id())) > 1u << 31;
        }
        pos += p.stored();
    }
    ::close(d);
    same_file(fe, e.file(), "encoded archive");
    run(false);
    same_file(fd, in.file(), "decoded archive");
    for (auto &s : {fi, fo, fe, fd})
        unlink(s.c_str());
    c.label(far ? "delta beyond 2 GiB" : "copy");
    c.nontrivial();
}

// ---------------------------------------------------------------- callbacks
struct Virt { // what callbacks see
    u64 base = 0;
    std::vector<std::pair<u64, const Big *>> at; // position, data
    u64 end = 0;
    std::string bad;
    void add(const Big *b, u64 len)
    {
        at.push_back({end, b});
        end += len;
    }
    bool get(u64 o, uint8_t *b, size_t n)
    {
        if (o > end || n > end - o)
            return false;
        size_t lo = 0, hi = at.size();
        while (hi - lo > 1) {
            size_t m = (lo + hi) / 2;
            (at[m].first <= o ? lo : hi) = m;
        }
        while (n) {
            u64 e = lo + 1 < at.size() ? at[lo + 1].first : end;
            size_t k = (size_t)std::min<u64>(n, e - o);
            u64 in = o - at[lo].first; // behind the data there is padding
            size_t m = in < at[lo].second->size ? (size_t)std::min<u64>(k, at[lo].second->size - in) : 0;
            if (m)
                at[lo].second->fill(in, b, m);
            memset(b + m, 0, k - m);
            o += k;
            b += k;
            n -= k;
            lo++;
        }
        return true;
    }
};
static ssize_t v_read(off_t o, uint8_t *b, size_t n, void *u)
{
    Virt *v = (Virt *)u;
    if (o < (off_t)v->base || !v->get((u64)o - v->base, b, n)) {
        if (v->bad.empty())
            v->bad = strf("read of %zu bytes at %lld, there are %llu from %llu", n, (long long)o, (unsigned long long)v->end, (unsigned long long)v->base);
        return -BPAK_READ_ERROR;
    }
    return (ssize_t)n;
}
static void s_verify(Case &c)
{
    Gen &g = c.g;
    BArc b;
    b.a.hash_kind = (uint8_t)g.range(1, 3);
    size_t n = (size_t)g.range(1, 4), k = (size_t)g.below(n);
    for (size_t i = 0; i < n; i++) {
        BPart p;
        p.name = strf("part-%zu", i);
        bool tree = i == k || g.chance(30);
        p.d = i == k ? big(g, big_size(g, 9ull << 30) & ~(tree ? 4095ull : 0)) : big(g, tree ? 4096 * g.range(1, 3) : g.range(1, 6000), true);
        p.size = p.d.size;
        if (g.chance(i == k ? 60 : 20))
            p.flags = 1;
        b.parts.push_back(p);
        if (tree) {
            BPart q;
            Bytes salt = g.content(32), root;
            Bytes t = tree_of(p.d, salt, root);
            q.name = "tree";
            q.tid = ref::tree_id(p.id());
            q.d.size = q.size = t.size();
            q.d.isl[0] = t;
            q.flags = p.flags;
            b.parts.push_back(q);
            b.a.add_meta(ID_SALT, p.id(), salt);
            b.a.add_meta(ID_ROOT, p.id(), root);
        }
    }
    // other big data in front that no check covers
    if (g.flip()) {
        BPart p;
        p.name = "front";
        p.d = big(g, big_size(g, ~0ull >> 1));
        p.size = p.d.size;
        p.flags = 1;
        b.parts.insert(b.parts.begin(), p);
    }
    b.update_hash();
    c.log("archive:%s\n", what_is(b).c_str());
    Bytes hb = b.header();
    bpak_header h;
    Virt v;
    v.base = g.pick<u64>({4096, 0, 1ull << 32, (1ull << 33) + 512});
    for (auto &p : b.parts)
        v.add(&p.d, p.stored());
    memcpy(&h, hb.data(), 4096);
    int rc = bpak_verify_payload(&h, v_read, (off_t)v.base, &v);
    CHECK(v.bad.empty(), "%s", v.bad.c_str());
    CHECK(rc == BPAK_OK, "intact data is refused (%d)", rc);
    CHECK(!memcmp(&h, hb.data(), 4096), "verification changed the header");
    // a changed byte: in covered data, or in a tree of whatever
    std::vector<size_t> cov;
    for (size_t i = 0; i < b.parts.size(); i++)
        if (b.parts[i].name != "front" && (!(b.parts[i].flags & 1) || b.a.find_meta(ID_ROOT, b.parts[i].pid()) >= 0))
            cov.push_back(i);
    if (!cov.empty()) {
        size_t q = g.pick(cov);
        for (size_t i : cov)
            if (b.parts[i].size > 1u << 30 && g.chance(70))
                q = i;
        Big &d = b.parts[q].d;
        u64 o = g.flip() ? g.below(d.size) : d.size - 1 - g.below(std::min<u64>(d.size, 8192));
        uint8_t x = (uint8_t)g.range(1, 255), old;
        d.fill(o, &old, 1);
        bool done = false;
        for (auto &i : d.isl)
            if (i.first <= o && o < i.first + i.second.size()) {
                i.second[o - i.first] ^= x;
                done = true;
            }
        if (!done)
            d.isl[o] = Bytes(1, x);
        rc = bpak_verify_payload(&h, v_read, (off_t)v.base, &v);
        CHECK(v.bad.empty(), "%s", v.bad.c_str());
        CHECK(rc != BPAK_OK, "byte %llu of part %zu was changed, and the data is accepted", (unsigned long long)o, q);
    }
    c.label("verification");
    c.nontrivial();
}
struct TreeOut {
    u64 base;
    Bytes t;
    std::string bad;
};
static ssize_t t_wr(off_t o, uint8_t *b, size_t n, void *u)
{
    TreeOut *t = (TreeOut *)u;
    u64 p = (u64)o - t->base;
    if (p > t->t.size() || n > t->t.size() - p) {
        t->bad = strf("tree write of %zu bytes at %lld", n, (long long)o);
        return -BPAK_WRITE_ERROR;
    }
    memcpy(&t->t[p], b, n);
    return (ssize_t)n;
}
static ssize_t t_rd(off_t o, uint8_t *b, size_t n, void *u)
{
    TreeOut *t = (TreeOut *)u;
    u64 p = (u64)o - t->base;
    if (p > t->t.size() || n > t->t.size() - p) {
        t->bad = strf("tree read of %zu bytes at %lld", n, (long long)o);
        return -BPAK_READ_ERROR;
    }
    memcpy(b, &t->t[p], n);
    return (ssize_t)n;
}
static void s_tree(Case &c)
{
    Gen &g = c.g;
    Big d = big(g, big_size(g, 9ull << 30) & ~4095ull);
    while (!d.isl.empty() && d.isl.rbegin()->first + d.isl.rbegin()->second.size() > d.size)
        d.isl.erase(std::prev(d.isl.end()));
    Bytes salt = g.content((size_t)g.pick<u64>({32, 16, 0, 20})), root, want = tree_of(d, salt, root);
    ssize_t sz = bpak_merkle_compute_size(d.size);
    CHECK(sz == (ssize_t)want.size(), "tree of %llu bytes: %zd bytes, expected %zu", (unsigned long long)d.size, sz, want.size());
    TreeOut o;
    o.base = g.pick<u64>({0, 1ull << 32, (1ull << 33) + 4096, 5ull << 30});
    o.t.assign(want.size(), 0x5c);
    auto ctx = std::make_unique<bpak_merkle_context>();
    int rc = bpak_merkle_init(ctx.get(), d.size, salt.data(), salt.size(), t_wr, t_rd, (off_t)o.base, true, &o);
    CHECK(!rc, "init failed (%d) %s", rc, o.bad.c_str());
    Bytes buf(1u << 20);
    size_t piece = (size_t)g.pick<u64>({1u << 20, 65536, 12345});
    for (u64 p = 0; p < d.size;) {
        size_t n = (size_t)std::min<u64>(piece, d.size - p);
        d.fill(p, buf.data(), n);
        rc = bpak_merkle_write_chunk(ctx.get(), buf.data(), n);
        CHECK(!rc, "write at %llu of %llu failed (%d) %s", (unsigned long long)p, (unsigned long long)d.size, rc, o.bad.c_str());
        p += n;
    }
    bpak_merkle_hash_t r;
    rc = bpak_merkle_finish(ctx.get(), r);
    CHECK(!rc, "finish failed (%d) %s", rc, o.bad.c_str());
    CHECK(!memcmp(r, root.data(), 32), "another root hash for %llu bytes", (unsigned long long)d.size);
    CHECK(o.t == want, "tree of %llu bytes: %s", (unsigned long long)d.size, diff_desc(o.t, want).c_str());
    c.label("hash tree");
    c.nontrivial();
}
// ---- deltas
struct Block {
    u64 diff, extra;
    int64_t adjust;
    Big d, e;
    u64 from, to; // positions in origin and output
};
struct Patch {
    const Big *org;
    u64 org_base = 0, out_base = 0;
    std::vector<Block> bl;
    u64 out = 0, written = 0;
    std::string bad;
    Bytes w;
    void expect(u64 o, uint8_t *b, size_t n)
    {
        while (n) {
            size_t i = 0;
            while (i + 1 < bl.size() && bl[i + 1].to <= o)
                i++;
            Block &k = bl[i];
            u64 in = o - k.to;
            size_t m;
            if (in < k.diff) {
                m = (size_t)std::min<u64>(n, k.diff - in);
                org->fill(k.from + in, b, m);
                k.d.each(in, m, [&](u64 at, const uint8_t *p, size_t q) {
                    for (size_t j = 0; j < q; j++)
                        b[at - in + j] = (uint8_t)(b[at - in + j] + p[j]);
                });
            } else {
                in -= k.diff;
                m = (size_t)std::min<u64>(n, k.extra - in);
                k.e.fill(in, b, m);
            }
            o += m;
            b += m;
            n -= m;
        }
    }
};
static ssize_t p_read(off_t o, uint8_t *b, size_t n, void *u)
{
    Patch *p = (Patch *)u;
    u64 at = (u64)o - p->org_base;
    if (!n)
        return 0;
    if (at > p->org->size || n > p->org->size - at) {
        p->bad = strf("origin read of %zu bytes at %lld", n, (long long)o);
        return -BPAK_READ_ERROR;
    }
    p->org->fill(at, b, n);
    return (ssize_t)n;
}
static ssize_t p_write(off_t o, uint8_t *b, size_t n, void *u)
{
    Patch *p = (Patch *)u;
    if (!n)
        return 0;
    u64 at = (u64)o - p->out_base;
    if (at != p->written || n > p->out - at) {
        p->bad = strf("output of %zu bytes at %lld, %llu of %llu bytes were written so far", n, (long long)o, (unsigned long long)p->written, (unsigned long long)p->out);
        return -BPAK_WRITE_ERROR;
    }
    if (p->w.size() < n)
        p->w.resize(n);
    p->expect(at, p->w.data(), n);
    if (memcmp(p->w.data(), b, n)) {
        size_t i = 0;
        while (p->w[i] == b[i])
            i++;
        p->bad = strf("output byte %llu is %02x, expected %02x", (unsigned long long)(at + i), b[i], p->w[i]);
        return -BPAK_WRITE_ERROR;
    }
    p->written += n;
    return (ssize_t)n;
}
static void s_patch(Case &c)
{
    Gen &g = c.g;
    bool lz = g.chance(20);
    Big org = big(g, big_size(g, 14ull << 30));
    Patch p;
    p.org = &org;
    p.org_base = g.pick<u64>({0, 4096, 1ull << 32});
    p.out_base = g.pick<u64>({0, 4096, (1ull << 32) + 4096});
    size_t n = (size_t)g.range(2, 5), bigs = 0;
    u64 pos = 0;
    for (size_t i = 0; i < n; i++) {
        Block k;
        k.diff = std::min<u64>(g.range(0, 5000), org.size - pos);
        k.extra = g.range(0, 3000);
        if (bigs < 1 && (g.chance(60) || i + 1 == n)) {
            u64 s = lz ? (1ull << 31) + g.range(0, 5000) : big_size(g, 5ull << 30);
            if (g.chance(40) && s <= org.size) {
                k.diff = s;
                pos = g.below(std::min<u64>(5000, org.size - s) + 1);
                if (!i)
                    pos = 0;
                else
                    p.bl.back().adjust = (int64_t)(pos - (p.bl.back().from + p.bl.back().diff));
            } else
                k.extra = s;
            bigs++;
        }
        k.from = pos;
        k.to = p.out;
        k.d = big(g, k.diff);
        k.e = big(g, k.extra);
        p.out += k.diff + k.extra;
        u64 next = g.chance(70) ? (g.flip() ? org.size - std::min<u64>(org.size, g.range(0, 9000)) : g.below(org.size)) : pos + k.diff;
        k.adjust = (int64_t)(next - (pos + k.diff));
        pos = next;
        p.bl.push_back(k);
    }
    std::string s;
    for (auto &k : p.bl)
        s += strf(" (%llu,%llu,%lld)", (unsigned long long)k.diff, (unsigned long long)k.extra, (long long)k.adjust);
    c.log("%s delta on %llu bytes:%s\n", lz ? "lzma" : "plain", (unsigned long long)org.size, s.c_str());
    size_t bl = (size_t)g.pick<u64>({1u << 20, 1u << 16, 2u << 20});
    Bytes buf(bl);
    auto ctx = std::make_unique<bpak_bspatch_context>();
    lzma_stream ls = LZMA_STREAM_INIT;
    if (lz)
        CHECK(lzma_easy_encoder(&ls, 0, LZMA_CHECK_CRC64) == LZMA_OK, "harness: lzma");
    struct EndLz {
        lzma_stream *s;
        ~EndLz() { lzma_end(s); }
    } elz{&ls};
    u64 total = 24 * p.bl.size() + p.out;
    int rc = bpak_bspatch_init(ctx.get(), buf.data(), bl, lz ? 1000 : total, p_read, (off_t)p.org_base, p_write, (off_t)p.out_base,
                               lz ? BPAK_COMPRESSION_LZMA : BPAK_COMPRESSION_NONE, &p);
    CHECK(!rc, "init failed (%d)", rc);
    Bytes piece(1u << 20), comp(1u << 16);
    auto give = [&](uint8_t *b, size_t m, bool last) {
        if (!lz) {
            rc = bpak_bspatch_write(ctx.get(), b, m);
            return;
        }
        ls.next_in = b;
        ls.avail_in = m;
        for (;;) {
            ls.next_out = comp.data();
            ls.avail_out = comp.size();
            lzma_ret r = lzma_code(&ls, last ? LZMA_FINISH : LZMA_RUN);
            if (comp.size() - ls.avail_out)
                rc = bpak_bspatch_write(ctx.get(), comp.data(), comp.size() - ls.avail_out);
            if (rc || r == LZMA_STREAM_END || (!last && !ls.avail_in && ls.avail_out))
                break;
            CHECK(r == LZMA_OK, "harness: lzma %d", (int)r);
        }
    };
    for (auto &k : p.bl) {
        Bytes ctl(24);
        auto out = [&](size_t at, int64_t v) {
            u64 a = v < 0 ? (u64)-v : (u64)v;
            put(ctl, at, 8, a | (v < 0 ? 1ull << 63 : 0));
        };
        out(0, (int64_t)k.diff);
        out(8, (int64_t)k.extra);
        out(16, k.adjust);
        give(ctl.data(), 24, false);
        for (const Big *d : {&k.d, &k.e})
            for (u64 o = 0; o < d->size && !rc;) {
                size_t m = (size_t)std::min<u64>(piece.size(), d->size - o);
                d->fill(o, piece.data(), m);
                give(piece.data(), m, false);
                o += m;
            }
        CHECK(!rc, "decoding failed (%d) after %llu of %llu bytes: %s", rc, (unsigned long long)p.written, (unsigned long long)p.out, p.bad.c_str());
    }
    if (lz)
        give(nullptr, 0, true);
    ssize_t r = rc ? rc : bpak_bspatch_final(ctx.get());
    bpak_bspatch_free(ctx.get());
    CHECK(p.bad.empty(), "%s", p.bad.c_str());
    CHECK(r == (ssize_t)p.out && p.written == p.out, "result %zd, %llu bytes written, expected %llu", r, (unsigned long long)p.written, (unsigned long long)p.out);
    c.label(lz ? "lzma delta" : "delta");
    c.nontrivial();
}
// ---- stream decoding
struct Out {
    u64 base;
    Virt want;           // what the output must be
    std::map<u64, u64> have; // written ranges
    u64 t0 = 0, t1 = 0;  // range of a tree that is made
    Bytes t;
    Bytes hdr;
    std::string bad;
    Bytes w;
    void note(const std::string &s)
    {
        if (bad.empty())
            bad = s;
    }
    void mark(u64 a, u64 e)
    {
        auto i = have.upper_bound(a);
        if (i != have.begin() && std::prev(i)->second >= a) {
            --i;
            i->second = std::max(i->second, e);
        } else
            i = have.insert({a, e}).first;
        for (auto j = std::next(i); j != have.end() && j->first <= i->second; j = have.erase(j))
            i->second = std::max(i->second, j->second);
    }
    bool has(u64 a, u64 n)
    {
        auto i = have.upper_bound(a);
        return i != have.begin() && std::prev(i)->second >= a + n;
    }
};
static ssize_t o_write(off_t o, uint8_t *b, size_t n, void *u)
{
    Out *s = (Out *)u;
    if (!n)
        return 0;
    u64 p = (u64)o - s->base;
    if (p > s->want.end || n > s->want.end - p) {
        s->note(strf("output of %zu bytes at %lld", n, (long long)o));
        return -BPAK_WRITE_ERROR;
    }
    if (p >= s->t0 && p + n <= s->t1)
        memcpy(&s->t[p - s->t0], b, n);
    else {
        if (s->w.size() < n)
            s->w.resize(n);
        s->want.get(p, s->w.data(), n);
        if (memcmp(s->w.data(), b, n)) {
            s->note(strf("output of %zu bytes at %lld is wrong", n, (long long)o));
            return -BPAK_WRITE_ERROR;
        }
    }
    s->mark(p, p + n);
    return (ssize_t)n;
}
static ssize_t o_read(off_t o, uint8_t *b, size_t n, void *u)
{
    Out *s = (Out *)u;
    u64 p = (u64)o - s->base;
    if (!s->has(p, n)) {
        s->note(strf("output read of %zu bytes at %lld, which were not written", n, (long long)o));
        return -BPAK_READ_ERROR;
    }
    if (p >= s->t0 && p + n <= s->t1)
        memcpy(b, &s->t[p - s->t0], n);
    else
        s->want.get(p, b, n);
    return (ssize_t)n;
}
static ssize_t o_hdr(off_t o, uint8_t *b, size_t n, void *u)
{
    Out *s = (Out *)u;
    if (o || n != 4096)
        s->note("header write");
    s->hdr.assign(b, b + n);
    return (ssize_t)n;
}
struct Both {
    Out out;
    Virt org;
};
static ssize_t b_write(off_t o, uint8_t *b, size_t n, void *u) { return o_write(o, b, n, &((Both *)u)->out); }
static ssize_t b_read(off_t o, uint8_t *b, size_t n, void *u) { return o_read(o, b, n, &((Both *)u)->out); }
static ssize_t b_hdr(off_t o, uint8_t *b, size_t n, void *u) { return o_hdr(o, b, n, &((Both *)u)->out); }
static ssize_t b_org(off_t o, uint8_t *b, size_t n, void *u) { return n ? v_read(o, b, n, &((Both *)u)->org) : 0; }
static void s_decode(Case &c)
{
    Gen &g = c.g;
    BArc in, org;
    in.a.hash_kind = (uint8_t)g.range(1, 3);
    in.a.add_meta(ID_PACKAGE, 0, g.content(16));
    org.a = in.a;
    size_t n = (size_t)g.range(2, 4), k = (size_t)g.below(n - 1);
    std::vector<Bytes> coded;
    bool tree = g.flip();
    u64 t0 = 0, t1 = 0;
    std::vector<Bytes> deltas;
    for (size_t i = 0; i < n; i++) {
        BPart p, o;
        p.name = o.name = strf("part-%zu", i);
        bool isbig = i == k;
        p.d = isbig ? big(g, big_size(g, 5ull << 30) & ~4095ull) : big(g, g.range(1, 6000), true);
        while (isbig && !p.d.isl.empty() && p.d.isl.rbegin()->first + p.d.isl.rbegin()->second.size() > p.d.size)
            p.d.isl.erase(std::prev(p.d.isl.end()));
        p.size = p.d.size;
        int cod = -1;
        if (!isbig && g.chance(80)) {
            cod = 0;
            o.d = big(g, g.range(1, 6000), true);
            o.size = o.d.size;
            org.parts.push_back(o);
        } else if (isbig && g.flip()) {
            o.d = big(g, big_size(g, ~0ull >> 1));
            o.size = o.d.size;
            org.parts.push_back(o);
        }
        deltas.emplace_back();
        in.parts.push_back(p);
        if (cod == 0) { // one block: differences to the start of the origin, and more
            Bytes from = flat(o.d), to = flat(p.d);
            from.resize(from.size() + (-from.size() & 511), 0);
            to.resize(to.size() + (-to.size() & 511), 0);
            size_t m = std::min(from.size(), to.size());
            Bytes d(24, 0);
            put(d, 0, 8, m);
            put(d, 8, 8, to.size() - m);
            for (size_t j = 0; j < m; j++)
                d.push_back((uint8_t)(to[j] - from[j]));
            d.insert(d.end(), to.begin() + (long)m, to.end());
            deltas.back() = d;
            in.a.add_transport(p.id(), ENC[0], DEC[0]);
        }
        if (isbig && tree) {
            Bytes salt = g.content(32), root, t = tree_of(p.d, salt, root);
            BPart q;
            q.name = "tree";
            q.tid = ref::tree_id(p.id());
            q.d.size = q.size = t.size();
            q.d.isl[0] = t;
            in.a.add_meta(ID_SALT, p.id(), salt);
            in.a.add_meta(ID_ROOT, p.id(), root);
            in.a.add_transport(q.tid, REMOVE, MERKLE_GEN);
            deltas.emplace_back();
            u64 at = 0;
            for (auto &r : in.parts)
                at += r.stored();
            t0 = at;
            t1 = at + t.size();
            in.parts.push_back(q);
        }
    }
    for (size_t j = g.below(3); j && org.parts.size() > 1; j--)
        std::swap(org.parts[g.below(org.parts.size())], org.parts[g.below(org.parts.size())]);
    in.update_hash();
    Both b;
    b.out.base = g.pick<u64>({4096, 0, 1ull << 32, 5ull << 30});
    b.out.t0 = t0;
    b.out.t1 = t1;
    b.out.t.assign((size_t)(t1 - t0), 0x5c);
    b.org.base = g.pick<u64>({4096, 0, 1ull << 32});
    BArc enc = in;
    for (size_t i = 0; i < enc.parts.size(); i++) {
        b.out.want.add(&in.parts[i].d, in.parts[i].stored());
        if (!deltas[i].empty() || enc.parts[i].tid) {
            enc.parts[i].flags |= 2;
            enc.parts[i].d = Big();
            enc.parts[i].d.size = deltas[i].size();
            if (!deltas[i].empty())
                enc.parts[i].d.isl[0] = deltas[i];
        }
    }
    for (auto &p : org.parts)
        b.org.add(&p.d, p.stored());
    c.log("archive:%s, origin:%s, output from %llu\n", what_is(enc).c_str(), what_is(org).c_str(), (unsigned long long)b.out.base);
    bpak_header ph, oh;
    Bytes eh = enc.header(), ohb = org.header();
    memcpy(&ph, eh.data(), 4096);
    memcpy(&oh, ohb.data(), 4096);
    Bytes buf(4096), piece(1u << 20);
    auto ctx = std::make_unique<bpak_transport_decode>();
    int rc = bpak_transport_decode_init(ctx.get(), buf.data(), buf.size(), &ph, b_write, b_read, (off_t)b.out.base, b_hdr, &b);
    CHECK(!rc, "init failed (%d)", rc);
    rc = bpak_transport_decode_set_origin(ctx.get(), &oh, b_org, (off_t)b.org.base);
    CHECK(!rc, "origin refused (%d)", rc);
    size_t step = (size_t)g.pick<u64>({1u << 20, 1u << 16, 5000});
    for (size_t i = 0; i < enc.parts.size(); i++) {
        rc = bpak_transport_decode_start(ctx.get(), &ph.parts[i]);
        CHECK(!rc, "part %zu: start failed (%d)", i, rc);
        u64 size = enc.parts[i].stored();
        for (u64 o = 0; o < size && !rc;) {
            size_t m = (size_t)std::min<u64>(step, size - o);
            const Big &d = enc.parts[i].d;
            d.fill(o, piece.data(), m);
            rc = bpak_transport_decode_write_chunk(ctx.get(), piece.data(), m);
            CHECK(!rc, "part %zu: writing %zu bytes at %llu failed (%d) %s %s", i, m, (unsigned long long)o, rc, b.out.bad.c_str(), b.org.bad.c_str());
            o += m;
        }
        rc = bpak_transport_decode_finish(ctx.get());
        CHECK(!rc, "part %zu: finish failed (%d) %s %s", i, rc, b.out.bad.c_str(), b.org.bad.c_str());
    }
    bpak_transport_decode_free(ctx.get());
    CHECK(b.out.bad.empty() && b.org.bad.empty(), "%s %s", b.out.bad.c_str(), b.org.bad.c_str());
    CHECK(b.out.has(0, b.out.want.end), "decoding succeeded, but not all of the output was written");
    if (t1 > t0) {
        Bytes want(b.out.t.size());
        b.out.want.get(t0, want.data(), want.size());
        CHECK(b.out.t == want, "regenerated tree: %s", diff_desc(b.out.t, want).c_str());
    }
    CHECK(b.out.hdr == in.header(), "decoded header: %s", cmp(b.out.hdr, in.header()).c_str());
    c.label(tree ? "stream decoding with a tree" : "stream decoding");
    c.nontrivial();
}
static void streams(Case &c)
{
    setup();
    switch (c.g.weighted({3, 2, 3, 4})) {
    case 0: s_verify(c); break;
    case 1: s_tree(c); break;
    case 2: s_patch(c); break;
    default: s_decode(c);
    }
}
static std::vector<Prop> props = {
    {"C43", "behind", behind, 3000, 40000,
     "archives with one to three parts of 2 to 12 GiB that the payload hash leaves out and small parts around them; histories of 2-6 operations that move little data, by library and tool, each judged by the archive model, the whole file compared; "
     "non-trivial: data or a position beyond 2 GiB took part", 100},
    {"C43", "bulk", bulk, 80, 1200, "one operation that moves, hashes or adds 2 to 5 GiB; non-trivial: as above", 100},
    {"C43", "transport", transport, 40, 600, "transport encoding and decoding by files of an archive with a part of 2 to 5 GiB and small deltas around it", 100},
    {"C43", "streams", streams, 60, 900,
     "payload verification, hash trees, deltas and stream decoding of 2 to 9 GiB through callbacks, also at big offsets, intact and damaged", 100},
};
PBT_MAIN(props)
