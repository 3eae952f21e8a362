// C41 device-side operations need memory that does not grow with the data, and work in proportion to it.
// The same operation is done on data of one size and of a size many times as big; what it needs is compared.
#include "stream.hh"
#include <bpak/crypto.h>
extern "C" {
#include <bpak/verify.h>
#include <bpak/merkle.h>
#include <bpak/key.h>
int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void *, size_t), void (*free_hook)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
}
#include <pthread.h>
#include <sys/mman.h>
using namespace pbt;
using namespace model;
using namespace world;

// ---------------------------------------------------------------- measuring
static __thread bool counting = false; // set in the measured thread, outside callbacks
static size_t heap_now = 0, heap_peak = 0;
static uint64_t cb_bytes = 0;
static void on_malloc(const volatile void *, size_t n)
{
    if (!counting)
        return;
    heap_now += n;
    heap_peak = std::max(heap_peak, heap_now);
}
static void on_free(const volatile void *p)
{
    if (!counting || !p)
        return;
    size_t n = __sanitizer_get_allocated_size(p);
    heap_now -= std::min(heap_now, n);
}
struct Quiet { // inside a callback of the harness
    bool was = counting;
    Quiet() { counting = false; }
    ~Quiet() { counting = was; }
};
struct Need {
    size_t heap = 0, stack = 0;
    uint64_t io = 0; // bytes moved by callbacks and system calls
    double cpu = 0;
    int rc = 0;
};
struct Task {
    std::function<int()> f;
    Need n;
    bool failed = false;
    Fail fail;
};
static uint64_t io_bytes()
{
    char b[512];
    int fd = open("/proc/thread-self/io", O_RDONLY);
    if (fd < 0)
        return 0;
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n <= 0)
        return 0;
    b[n] = 0;
    unsigned long long r = 0, w = 0;
    if (const char *p = strstr(b, "rchar:"))
        r = strtoull(p + 6, nullptr, 10);
    if (const char *p = strstr(b, "wchar:"))
        w = strtoull(p + 6, nullptr, 10);
    return r + w;
}
static double cpu_now()
{
    struct timespec t;
    clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
    return (double)t.tv_sec + (double)t.tv_nsec * 1e-9;
}
static void *task(void *u)
{
    Task *t = (Task *)u;
    heap_now = heap_peak = 0;
    cb_bytes = 0;
    uint64_t io = io_bytes();
    double c = cpu_now();
    try {
        counting = true;
        t->n.rc = t->f();
        counting = false;
    } catch (Fail &e) {
        counting = false;
        t->failed = true;
        t->fail = e;
    }
    t->n.cpu = cpu_now() - c;
    t->n.io = io_bytes() - io + cb_bytes;
    t->n.heap = heap_peak;
    return nullptr;
}
static const size_t STACK = 6u << 20;
static Need measure(std::function<int()> f)
{
    static bool hooked = false;
    if (!hooked)
        __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    hooked = true;
    uint8_t *st = (uint8_t *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    CHECK(st != MAP_FAILED, "no stack"); // pages that were never touched are zero
    Task t;
    t.f = f;
    pthread_attr_t a;
    pthread_attr_init(&a);
    pthread_attr_setstack(&a, st, STACK);
    pthread_t th;
    CHECK(pthread_create(&th, &a, task, &t) == 0, "no thread");
    pthread_join(th, nullptr);
    pthread_attr_destroy(&a);
    size_t low = STACK; // lowest page in use
    std::vector<unsigned char> in(STACK / 4096);
    if (mincore(st, STACK, in.data()) == 0)
        for (size_t i = 0; i < in.size(); i++)
            if (in[i] & 1) {
                low = i * 4096;
                break;
            }
    t.n.stack = STACK - low;
    munmap(st, STACK);
    if (t.failed)
        throw t.fail;
    return t.n;
}

// ---------------------------------------------------------------- inputs and outputs in memory
struct Mem {
    const uint8_t *in = nullptr; // what may be read
    size_t in_n = 0;
    Bytes out; // of full size from the start
    off_t base = 0;
};
static ssize_t m_in(off_t o, uint8_t *b, size_t n, void *u)
{
    Quiet q;
    Mem *m = (Mem *)u;
    if (o < 0 || (size_t)o > m->in_n || n > m->in_n - (size_t)o)
        return -BPAK_READ_ERROR;
    memcpy(b, m->in + o, n);
    cb_bytes += n;
    return (ssize_t)n;
}
static ssize_t m_wr(off_t o, uint8_t *b, size_t n, void *u)
{
    Quiet q;
    Mem *m = (Mem *)u;
    if (o < 0 || (size_t)o > m->out.size() || n > m->out.size() - (size_t)o)
        return -BPAK_WRITE_ERROR;
    if (n)
        memcpy(&m->out[(size_t)o], b, n);
    cb_bytes += n;
    return (ssize_t)n;
}
static ssize_t m_rd(off_t o, uint8_t *b, size_t n, void *u)
{
    Quiet q;
    Mem *m = (Mem *)u;
    if (o < 0 || (size_t)o > m->out.size() || n > m->out.size() - (size_t)o)
        return -BPAK_READ_ERROR;
    if (n)
        memcpy(b, &m->out[(size_t)o], n);
    cb_bytes += n;
    return (ssize_t)n;
}
static ssize_t m_hdr(off_t, uint8_t *, size_t n, void *)
{
    cb_bytes += n;
    return (ssize_t)n;
}

// ---------------------------------------------------------------- shapes: the same archive in any size
struct Shape {
    size_t unit = 0;             // bytes of data at factor 1
    uint64_t seed = 1;
    unsigned hash = 1;
    int coding = 0;              // delta compression of the first part
    bool tree = false, tail = false, delta = true;
    unsigned texture = 0;
    size_t edits = 4;
    Bytes uid, salt;
};
static Bytes fill(const Shape &s, size_t n, uint64_t salt)
{
    Bytes b(n);
    Rng r(s.seed * 77 + salt);
    switch (s.texture) {
    case 0:
        for (auto &x : b)
            x = (uint8_t)r.next();
        break;
    case 1:
        for (auto &x : b)
            x = (uint8_t)("abcd    \n"[r.next() % 9]);
        break;
    case 2: // long runs
        for (size_t i = 0; i < n;) {
            size_t k = 200 + r.next() % 3000;
            uint8_t v = (uint8_t)r.next();
            for (; k && i < n; k--, i++)
                b[i] = v;
        }
        break;
    default: // records
        for (size_t i = 0; i < n; i++)
            b[i] = i % 64 < 60 && i >= 64 ? b[i - 64] : (uint8_t)r.next();
    }
    return b;
}
static Bytes newer(const Shape &s, const Bytes &o, size_t factor)
{
    Bytes t = o;
    Rng r(s.seed * 31 + 5);
    for (size_t k = 0; k < s.edits * factor; k++) {
        size_t at = r.next() % t.size(), n = std::min<size_t>(r.next() % 300 + 1, t.size() - at);
        switch (r.next() % 3) {
        case 0:
            for (size_t i = 0; i < n; i++)
                t[at + i] = (uint8_t)r.next();
            break;
        case 1:
            for (size_t i = 0; i < n; i++)
                t[at + i] = (uint8_t)(t[at + i] + 1);
            break;
        default:
            for (size_t i = 0; i < n; i++)
                t[at + i] = t[(at + i * 7 + 1000) % t.size()];
        }
    }
    return t;
}
struct Made {
    Bytes org, in, enc; // archives as files
    Bytes o, t, d;      // first part, its delta
    uint32_t tid = 0;
};
static Made make(const Shape &s, size_t factor)
{
    Made m;
    size_t n = s.unit * factor / 4096 * 4096;
    m.o = fill(s, n, 1);
    m.t = newer(s, m.o, factor);
    Arc a, b;
    a.hash_kind = b.hash_kind = (uint8_t)s.hash;
    a.add_meta(ID_PACKAGE, 0, s.uid);
    b.add_meta(ID_PACKAGE, 0, s.uid);
    b.add(0x5151, m.o, 0);
    if (s.tree)
        a.add_with_tree(0x5151, m.t, s.salt, 0);
    else
        a.add(0x5151, m.t, 0);
    m.tid = ref::tree_id(0x5151);
    if (s.tail)
        a.add(0x99, fill(s, n / 2, 9), 0);
    if (s.delta)
        a.add_transport(0x5151, ENC[s.coding], DEC[s.coding]);
    if (s.tree)
        a.add_transport(m.tid, REMOVE, MERKLE_GEN);
    a.update_hash();
    b.update_hash();
    m.in = a.build();
    m.org = b.build();
    return m;
}

static Shape shape(Case &c, Gen &g)
{
    Shape s;
    s.unit = 4096 * (size_t)g.range(8, c.thorough ? 96 : 32);
    s.seed = g.draw(1u << 20);
    s.hash = (unsigned)g.range(1, 3);
    s.texture = (unsigned)g.below(4);
    s.edits = (size_t)g.range(0, 12);
    s.tail = g.flip();
    s.uid = g.content(16);
    s.salt = g.content(32);
    return s;
}
static void compare(Case &c, const char *what, const Shape &s, size_t f, const Need &a, const Need &b)
{
    double big = (double)s.unit * (double)f;
    c.log("%s: %zu bytes x %zu: heap %zu -> %zu, stack %zu -> %zu, bytes moved %llu -> %llu, cpu %.3f -> %.3f, rc %d %d\n", what, s.unit, f, a.heap, b.heap, a.stack, b.stack,
          (unsigned long long)a.io, (unsigned long long)b.io, a.cpu, b.cpu, a.rc, b.rc);
    CHECK(a.rc == 0 && b.rc == 0, "%s fails: %d on %zu bytes, %d on %.0f bytes", what, a.rc, s.unit, b.rc, big);
    size_t slack = std::min<size_t>(256u << 10, (size_t)(big / 3));
    CHECK(b.heap <= a.heap + slack, "%s needs %zu bytes of heap for %zu bytes of data and %zu for %.0f", what, a.heap, s.unit, b.heap, big);
    CHECK(b.stack <= a.stack + slack, "%s needs %zu bytes of stack for %zu bytes of data and %zu for %.0f", what, a.stack, s.unit, b.stack, big);
    CHECK((double)b.io <= (double)a.io * (double)f * 2 + 1e6, "%s moves %llu bytes for %zu bytes of data and %llu for %.0f", what, (unsigned long long)a.io, s.unit, (unsigned long long)b.io, big);
    CHECK(b.cpu <= a.cpu * (double)f * 5 + 0.5, "%s takes %.3f s for %zu bytes of data and %.3f s for %.0f", what, a.cpu, s.unit, b.cpu, big);
    if (b.io > a.io * 2)
        c.nontrivial();
}
static size_t factor(Case &c, Gen &g) { return (size_t)g.range(14, c.thorough ? 40 : 22); }

// ---------------------------------------------------------------- streams
static int decode_memory(const Bytes &enc, const Bytes &org, Mem &out, size_t chunk)
{
    bpak_header ph, oh;
    memcpy(&ph, enc.data(), 4096);
    memcpy(&oh, org.data(), 4096);
    struct Both {
        bpak_transport_decode ctx;
        uint8_t buf[4096];
    };
    static Both b;
    int rc = bpak_transport_decode_init(&b.ctx, b.buf, sizeof b.buf, &ph, m_wr, m_rd, 0, m_hdr, &out);
    if (rc)
        return rc;
    rc = bpak_transport_decode_set_origin(&b.ctx, &oh, m_in, 4096);
    size_t pos = 4096;
    for (int i = 0; i < BPAK_MAX_PARTS && !rc && ph.parts[i].id; i++) {
        size_t n = bpak_part_size(&ph.parts[i]);
        rc = bpak_transport_decode_start(&b.ctx, &ph.parts[i]);
        for (size_t k = 0; k < n && !rc; k += chunk)
            rc = bpak_transport_decode_write_chunk(&b.ctx, const_cast<uint8_t *>(enc.data()) + pos + k, std::min(chunk, n - k));
        pos += n;
        if (!rc)
            rc = bpak_transport_decode_finish(&b.ctx);
    }
    bpak_transport_decode_free(&b.ctx);
    return rc;
}
static void streams(Case &c)
{
    Gen &g = c.g;
    Shape s = shape(c, g);
    size_t f = factor(c, g);
    unsigned op = (unsigned)g.weighted({3, 2, 2, 4, 4});
    s.tree = op != 3 && g.flip();
    s.coding = (int)g.weighted({3, 4, 1});
    s.delta = op >= 3 && g.chance(80);
    if (op == 1)
        s.tree = true;
    size_t chunk = (size_t)g.pick({4096, 1, 100, 512, 1000, 10000, 65536});
    if (chunk == 1)
        s.unit = std::min<size_t>(s.unit, 65536);
    Need n[2];
    const char *what = "";
    for (int k = 0; k < 2; k++) {
        Made m = make(s, k ? f : 1);
        bpak_header h;
        memcpy(&h, m.in.data(), 4096);
        Mem mem;
        mem.in = m.in.data();
        mem.in_n = m.in.size();
        switch (op) {
        case 0:
            what = "verification of an archive";
            n[k] = measure([&]() { return bpak_verify_payload(&h, m_in, 4096, &mem); });
            break;
        case 1: {
            what = "verification of a hash tree";
            ref::Tree t = ref::verity(m.t, s.salt);
            n[k] = measure([&]() { return bpak_verify_merkle_tree(m_in, 4096, m.t.size(), (off_t)(4096 + m.t.size()), t.root.data(), const_cast<uint8_t *>(s.salt.data()), &mem); });
            break;
        }
        case 2: {
            what = "making a hash tree";
            mem.out.resize(bpak_merkle_compute_size(m.t.size()));
            static bpak_merkle_context ctx;
            n[k] = measure([&]() {
                int rc = bpak_merkle_init(&ctx, m.t.size(), const_cast<uint8_t *>(s.salt.data()), 32, m_wr, m_rd, 0, false, &mem);
                for (size_t i = 0; i < m.t.size() && !rc; i += chunk)
                    rc = bpak_merkle_write_chunk(&ctx, m.t.data() + i, std::min(chunk, m.t.size() - i));
                bpak_merkle_hash_t r;
                return rc ? rc : bpak_merkle_finish(&ctx, r);
            });
            break;
        }
        case 3: {
            what = s.coding == 0 ? "applying an uncompressed delta" : s.coding == 1 ? "applying a heatshrink delta" : "applying an LZMA delta";
            Bytes d = delta::diff_ok(m.o, m.t, s.coding);
            mem.in = m.o.data();
            mem.in_n = m.o.size();
            mem.out.resize(m.t.size());
            static bpak_bspatch_context ctx;
            static uint8_t buf[4096];
            n[k] = measure([&]() -> int {
                int rc = bpak_bspatch_init(&ctx, buf, sizeof buf, d.size(), m_in, 0, m_wr, 0, (enum bpak_compression)s.coding, &mem);
                if (rc)
                    return rc;
                for (size_t i = 0; i < d.size() && !rc; i += chunk)
                    rc = bpak_bspatch_write(&ctx, d.data() + i, std::min(chunk, d.size() - i));
                ssize_t r = rc ? 0 : bpak_bspatch_final(&ctx);
                bpak_bspatch_free(&ctx);
                return rc ? rc : r == (ssize_t)m.t.size() ? 0 : -1000;
            });
            CHECK(n[k].rc || mem.out == m.t, "%s gives other data", what);
            break;
        }
        default: {
            what = "transport decoding of a stream";
            std::string i = c.path("i"), o = c.path("o"), e = c.path("e");
            write_file(i, m.in);
            write_file(o, m.org);
            int rc = file_code(true, i, e, o);
            CHECK(rc == 0, "encoding failed: %d", rc);
            Bytes enc = slurp(e);
            mem.in = m.org.data();
            mem.in_n = m.org.size();
            mem.out.resize(m.in.size() - 4096);
            n[k] = measure([&]() { return decode_memory(enc, m.org, mem, chunk); });
            CHECK(n[k].rc || !memcmp(mem.out.data(), &m.in[4096], mem.out.size()), "%s gives other data", what);
        }
        }
    }
    compare(c, what, s, f, n[0], n[1]);
    c.label(what);
}
// ---------------------------------------------------------------- files
static void files(Case &c)
{
    Gen &g = c.g;
    Shape s = shape(c, g);
    size_t f = factor(c, g);
    static const char *names[] = {"opening and verifying an archive file", "hashing a part", "extracting a part", "adding a file", "adding a file with a hash tree", "updating the payload hash",
                                  "deleting a part", "transport decoding of a file", "signing an archive file", "transport encoding without deltas", "opening an archive file"};
    unsigned op = (unsigned)g.below(11);
    s.tree = g.flip();
    s.coding = (int)g.weighted({3, 4, 1});
    s.delta = op == 7 && g.chance(80);
    if (op == 6)
        s.tail = true;
    const char *what = names[op];
    Need n[2];
    bpak_key *pub = nullptr;
    std::string priv = keydir() + "p256a.p8.pem";
    CHECK(bpak_crypto_load_public_key((keydir() + "p256a.pub.pem").c_str(), &pub) == 0, "no key");
    std::unique_ptr<bpak_key, void (*)(bpak_key *)> del(pub, [](bpak_key *k) { bpak_free(k); });
    for (int k = 0; k < 2; k++) {
        Made m = make(s, k ? f : 1);
        std::string i = c.path("i"), o = c.path("o"), e = c.path("e"), x = c.path("x");
        write_file(i, m.in);
        write_file(o, m.org);
        unlink(x.c_str());
        if (op == 0) {
            Pkg p;
            CHECK(p.open_file(i, "rb+") == 0 && bpak_pkg_sign(p.p, priv.c_str()) == 0 && p.close() == 0, "signing failed");
        }
        if (op == 3 || op == 4)
            write_file(x, m.t);
        if (op == 7)
            CHECK(file_code(true, i, e, o) == 0, "encoding failed");
        Pkg p, q, r;
        n[k] = measure([&]() -> int {
            int rc;
            switch (op) {
            case 0:
                if ((rc = bpak_pkg_open(p.p, i.c_str(), "rb")))
                    return rc;
                rc = bpak_pkg_verify(p.p, pub);
                break;
            case 3:
            case 4:
                if ((rc = bpak_pkg_open(p.p, i.c_str(), "rb+")))
                    return rc;
                rc = op == 3 ? bpak_pkg_add_file(p.p, x.c_str(), "more", 0) : bpak_pkg_add_file_with_merkle_tree(p.p, x.c_str(), "more", 0);
                break;
            case 7:
            case 9:
                if ((rc = bpak_pkg_open(p.p, op == 7 ? e.c_str() : i.c_str(), "rb")))
                    return rc;
                if (!(rc = bpak_pkg_open(q.p, x.c_str(), "wb+"))) {
                    if (!(rc = bpak_pkg_open(r.p, o.c_str(), "rb"))) {
                        rc = op == 7 ? bpak_pkg_transport_decode(p.p, q.p, r.p) : bpak_pkg_transport_encode(p.p, q.p, r.p);
                        bpak_pkg_close(r.p);
                    }
                    int cr = bpak_pkg_close(q.p);
                    rc = rc ? rc : cr;
                }
                break;
            default:
                if ((rc = bpak_pkg_open(p.p, i.c_str(), "rb+")))
                    return rc;
                uint8_t h[64];
                if (op == 1)
                    rc = bpak_pkg_part_sha256(p.p, h, sizeof h, 0x5151);
                else if (op == 2)
                    rc = bpak_pkg_extract_file(p.p, 0x5151, x.c_str());
                else if (op == 5)
                    rc = bpak_pkg_update_hash(p.p, nullptr, nullptr);
                else if (op == 6)
                    rc = bpak_pkg_delete_part(p.p, 0x5151, true);
                else if (op == 8)
                    rc = bpak_pkg_sign(p.p, priv.c_str());
            }
            int cr = bpak_pkg_close(p.p);
            return rc ? rc : cr;
        });
    }
    compare(c, what, s, f, n[0], n[1]);
    if (op == 10) // the header only
        c.nontrivial();
    c.label(what);
}
static std::vector<Prop> props = {
    {"C41", "streams", streams, 400, 4000,
     "verification, hash trees, deltas of every compression and stream decoding, on generated data of 32 to 128 KiB and on the same shape 14 to 22 times as big, fed in pieces of one size; peak heap, stack depth, bytes moved and processor time are compared; "
     "non-trivial: the bigger data moved more than twice the bytes", 120},
    {"C41", "files", files, 400, 4000, "the operations on archive files (open, verify, hash, extract, add, add with tree, delete, sign, transport coding without computing deltas) likewise; non-trivial: as above", 120},
};
PBT_MAIN(props)
