// Choice-tape property-based testing engine: random generation, crash isolation in forked
// workers, internal shrinking, deterministic replay, coverage accounting.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt {

typedef std::vector<uint8_t> Bytes;

static const size_t TAPE_MAX = 1 << 14;
struct Slot {
    volatile uint64_t case_idx;
    volatile double t_start;
    volatile uint32_t running;
    volatile uint32_t status; // 0 ok, 10 fail, 12 timeout
    volatile uint32_t ntape;
    volatile uint32_t nontrivial;
    char sig[256];
    char msg[8192];
    char log[16384];
    uint64_t tape[TAPE_MAX];
};

struct Fail {
    std::string sig, msg;
};
struct Discard {};

static inline uint64_t mix64(uint64_t z)
{
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++)
        h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
static inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull)
{
    return hash_bytes(s.data(), s.size(), h);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(mix64(seed)) {}
    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
};

// Source of choices. draw(n) yields a value in [0, n); 0 is always the simplest choice.
class Gen {
  public:
    enum Mode { RANDOM, REPLAY, BYTES };
    Mode mode = RANDOM;
    Rng rng{0};
    std::vector<uint64_t> in;
    const uint8_t *bytes = nullptr;
    size_t nbytes = 0, bpos = 0;
    size_t pos = 0;
    Slot *slot = nullptr;

    uint64_t draw(uint64_t n)
    {
        if (slot->ntape >= TAPE_MAX)
            return 0;
        uint64_t v = 0;
        if (mode == RANDOM) {
            v = rng.next();
            if (n)
                v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        } else if (mode == REPLAY) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
            if (n && v >= n)
                v %= n;
        } else {
            int nb = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
            for (int i = 0; i < nb; i++)
                if (bpos < nbytes)
                    v |= (uint64_t)bytes[bpos++] << (8 * i);
            if (n)
                v %= n;
        }
        slot->tape[slot->ntape] = v;
        slot->ntape = slot->ntape + 1;
        return v;
    }
    uint64_t below(uint64_t n) { return n <= 1 ? 0 : draw(n); }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(unsigned pct) { return draw(100) >= 100 - pct; } // 0 -> false
    bool flip() { return draw(2) != 0; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> l)
    {
        return *(l.begin() + below(l.size()));
    }
    // weighted choice; index 0 simplest
    size_t weighted(std::initializer_list<unsigned> w)
    {
        uint64_t tot = 0;
        for (auto x : w)
            tot += x;
        uint64_t r = draw(tot);
        size_t i = 0;
        for (auto x : w) {
            if (r < x)
                return i;
            r -= x;
            i++;
        }
        return 0;
    }
    // log-uniform size in [0, max]
    uint64_t logsize(uint64_t max)
    {
        unsigned bits = 0;
        while (bits < 63 && (1ull << bits) <= max)
            bits++;
        unsigned b = (unsigned)below(bits + 1);
        if (b == 0)
            return 0;
        uint64_t lo = 1ull << (b - 1), hi = std::min<uint64_t>((1ull << b) - 1, max);
        return range(lo, hi);
    }
    // size near interesting boundaries
    uint64_t edge_size(uint64_t max)
    {
        switch (weighted({3, 4, 2})) {
        case 0:
            return logsize(max);
        case 1: {
            static const uint64_t base[] = {512, 4096, 1024, 8192, 128, 2048, 12288, 16384};
            uint64_t b = base[below(8)] * range(1, 3);
            int64_t d = (int64_t)below(5) - 2;
            int64_t v = (int64_t)b + d;
            return v < 0 ? 0 : std::min<uint64_t>((uint64_t)v, max);
        }
        default:
            return below(max + 1);
        }
    }
    Bytes content(size_t len)
    {
        Bytes b(len);
        switch (weighted({2, 5, 2, 2, 2})) {
        case 0: {
            uint8_t v = (uint8_t)below(256);
            std::fill(b.begin(), b.end(), v);
            break;
        }
        case 1: {
            Rng r(draw(1u << 30));
            for (auto &x : b)
                x = (uint8_t)r.next();
            break;
        }
        case 2: { // few symbols
            Rng r(draw(1u << 30));
            unsigned k = (unsigned)range(1, 4);
            for (auto &x : b)
                x = (uint8_t)('a' + r.next() % (k + 1));
            break;
        }
        case 3: { // periodic
            size_t per = (size_t)range(1, 40);
            Rng r(draw(1u << 30));
            for (size_t i = 0; i < len; i++)
                b[i] = i < per ? (uint8_t)r.next() : b[i - per];
            break;
        }
        default: { // blocks of random and constant
            Rng r(draw(1u << 30));
            size_t i = 0;
            while (i < len) {
                size_t n = r.next() % 700 + 1;
                bool rnd = r.next() & 1;
                uint8_t c = (uint8_t)r.next();
                for (; n && i < len; n--, i++)
                    b[i] = rnd ? (uint8_t)r.next() : c;
            }
        }
        }
        return b;
    }
    // short literal bytes, each drawn separately (shrinks well)
    Bytes literal(size_t maxlen)
    {
        Bytes b((size_t)below(maxlen + 1));
        for (auto &x : b)
            x = (uint8_t)draw(256);
        return b;
    }
};

struct Case {
    Gen &g;
    Slot *slot;
    std::string scratch; // private scratch directory of this worker
    std::map<std::string, uint64_t> *labels;
    size_t logpos = 0;
    bool verbose = false;
    bool thorough = false;
    Case(Gen &g_, Slot *s) : g(g_), slot(s), labels(nullptr) { slot->log[0] = 0; }
    void nontrivial() { slot->nontrivial = 1; }
    void label(const std::string &l)
    {
        if (labels)
            (*labels)[l]++;
    }
    void log(const char *fmt, ...) __attribute__((format(printf, 2, 3)))
    {
        if (logpos + 2 >= sizeof(slot->log))
            return;
        va_list ap;
        va_start(ap, fmt);
        int n = vsnprintf(slot->log + logpos, sizeof(slot->log) - logpos - 1, fmt, ap);
        va_end(ap);
        if (n > 0)
            logpos = std::min(sizeof(slot->log) - 2, logpos + (size_t)n);
        if (verbose) {
            va_start(ap, fmt);
            vfprintf(stderr, fmt, ap);
            va_end(ap);
        }
    }
    std::string path(const std::string &n) const { return scratch + "/" + n; }
};

static inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
static inline std::string strf(const char *fmt, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}
#define PBT_STR2(x) #x
#define PBT_STR(x)  PBT_STR2(x)
#define FAILF(...)                                                                   \
    throw pbt::Fail { __FILE__ ":" PBT_STR(__LINE__), pbt::strf(__VA_ARGS__) }
#define CHECK(cond, ...)                                                             \
    do {                                                                             \
        if (!(cond))                                                                 \
            FAILF(__VA_ARGS__);                                                      \
    } while (0)

typedef void (*PropFn)(Case &);
struct Prop {
    const char *id;   // property id
    const char *sub;  // sub-check name
    PropFn fn;
    uint64_t quick, thorough; // number of cases
    const char *rule;         // how cases are made, what is non-trivial
    unsigned cpu_s;           // per-case CPU limit
    bool racy = false;        // threads: a failing case may take a few runs to fail again
};

// ---------------------------------------------------------------- helpers
static inline double now()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static inline int rm_cb(const char *p, const struct stat *, int, struct FTW *)
{
    return ::remove(p);
}
static inline void rmtree(const std::string &p)
{
    if (p.find("/bpakpbt.") == std::string::npos)
        return; // only ever removes our own scratch directories
    nftw(p.c_str(), rm_cb, 16, FTW_DEPTH | FTW_PHYS);
}
static inline void clean_dir(const std::string &d)
{
    DIR *dp = opendir(d.c_str());
    if (!dp)
        return;
    while (struct dirent *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            chmod(p.c_str(), 0700);
            rmtree(p);
        } else
            unlink(p.c_str());
    }
    closedir(dp);
}
static inline bool write_file(const std::string &p, const void *d, size_t n)
{
    int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd < 0)
        return false;
    const uint8_t *b = (const uint8_t *)d;
    while (n) {
        ssize_t w = ::write(fd, b, n);
        if (w <= 0) {
            close(fd);
            return false;
        }
        b += w;
        n -= (size_t)w;
    }
    close(fd);
    return true;
}
static inline bool write_file(const std::string &p, const Bytes &b)
{
    return write_file(p, b.data(), b.size());
}
static inline bool read_file(const std::string &p, Bytes &out)
{
    out.clear();
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0)
        return false;
    struct stat st;
    if (fstat(fd, &st) == 0 && st.st_size > 0)
        out.reserve((size_t)st.st_size);
    uint8_t buf[65536];
    ssize_t r;
    while ((r = ::read(fd, buf, sizeof buf)) > 0)
        out.insert(out.end(), buf, buf + r);
    close(fd);
    return r == 0;
}
static inline Bytes slurp(const std::string &p)
{
    Bytes b;
    if (!read_file(p, b))
        FAILF("harness: cannot read %s: %s", p.c_str(), strerror(errno));
    return b;
}
static inline bool exists(const std::string &p)
{
    struct stat st;
    return lstat(p.c_str(), &st) == 0;
}
static inline std::string hexs(const uint8_t *p, size_t n)
{
    static const char *d = "0123456789abcdef";
    std::string s;
    for (size_t i = 0; i < n; i++) {
        s += d[p[i] >> 4];
        s += d[p[i] & 15];
    }
    return s;
}
static inline size_t first_diff(const Bytes &a, const Bytes &b)
{
    size_t n = std::min(a.size(), b.size());
    for (size_t i = 0; i < n; i++)
        if (a[i] != b[i])
            return i;
    return n;
}
static inline std::string diff_desc(const Bytes &a, const Bytes &b)
{
    if (a == b)
        return "equal";
    size_t i = first_diff(a, b);
    return strf("sizes %zu vs %zu, first difference at %zu (%s vs %s)", a.size(), b.size(), i,
                i < a.size() ? hexs(&a[i], 1).c_str() : "end",
                i < b.size() ? hexs(&b[i], 1).c_str() : "end");
}
static inline std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += (char)c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 0x20 || c >= 0x7f)
            o += strf("\\u%04x", c);
        else
            o += (char)c;
    }
    return o + "\"";
}

// ---------------------------------------------------------------- runner
struct Options {
    std::string prop, sub, tier = "quick", evidence, replay_dir = ".", replay, from_bytes;
    uint64_t seed = 1;
    uint64_t cases = 0;
    int workers = 8;
    double max_wall = 0;
    bool verbose = false;
};

static std::string g_base;
static Slot *g_slot;
static const Prop *g_cur;

static inline Slot *new_slot()
{
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    return (Slot *)p;
}
static void on_prof(int)
{
    if (g_slot) {
        g_slot->status = 12;
        strcpy(g_slot->sig, "timeout");
        strcpy(g_slot->msg, "case exceeded its CPU time limit (hang)");
    }
    _exit(12);
}
static inline void arm(unsigned s)
{
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
}
// Runs one case in this process. Returns 0 ok, 1 discard, 10 fail
static inline int run_case(const Prop &p, Gen &g, Slot *slot, const std::string &scratch, bool thorough,
                           std::map<std::string, uint64_t> *labels, bool verbose)
{
    slot->ntape = 0;
    slot->nontrivial = 0;
    slot->status = 0;
    slot->sig[0] = slot->msg[0] = 0;
    g.slot = slot;
    Case c(g, slot);
    c.scratch = scratch;
    c.labels = labels;
    c.verbose = verbose;
    c.thorough = thorough;
    g_slot = slot;
    srandom(1);
    srand(1);
    arm(p.cpu_s ? p.cpu_s : 60);
    int rc = 0;
    try {
        p.fn(c);
    } catch (const Fail &f) {
        rc = 10;
        slot->status = 10;
        snprintf(slot->sig, sizeof slot->sig, "%s", f.sig.c_str());
        snprintf(slot->msg, sizeof slot->msg, "%s", f.msg.c_str());
    } catch (const Discard &) {
        rc = 1;
    }
    arm(0);
    return rc;
}

struct TapeResult {
    int status = 0; // 0 pass, 10 fail, 12 timeout, 99 crash
    std::string sig, msg, log;
    std::vector<uint64_t> tape;
    std::string crash_out;
};

static TapeResult run_tape(const Prop &p, const std::vector<uint64_t> &tape, const Options &o, bool verbose = false,
                           const Bytes *raw = nullptr, bool loud = false)
{
    static Slot *slot = nullptr;
    if (!slot)
        slot = new_slot();
    memset((void *)slot, 0, offsetof(Slot, tape));
    std::string errf = g_base + strf("/err.%d", getpid());
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        if (!loud) {
            int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0) {
                dup2(fd, 2);
                dup2(fd, 1);
                close(fd);
            }
        }
        signal(SIGPROF, on_prof);
        std::string sc = g_base + strf("/s%d", getpid());
        mkdir(sc.c_str(), 0700);
        Gen g;
        if (raw) {
            g.mode = Gen::BYTES;
            g.bytes = raw->data();
            g.nbytes = raw->size();
        } else {
            g.mode = Gen::REPLAY;
            g.in = tape;
        }
        slot->running = 1;
        int rc = run_case(p, g, slot, sc, o.tier == "thorough", nullptr, verbose);
        slot->running = 0;
        rmtree(sc);
        _exit(rc == 10 ? 10 : 0);
    }
    double t0 = now();
    int st = 0;
    bool killed = false;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid)
            break;
        if (now() - t0 > (p.racy ? 60 : 300)) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            killed = true;
            break;
        }
        usleep(now() - t0 < 0.05 ? 300 : 3000);
    }
    kill(-pid, SIGKILL); // stray grandchildren
    TapeResult r;
    r.tape.assign(slot->tape, slot->tape + std::min<size_t>(slot->ntape, TAPE_MAX));
    r.log = slot->log;
    if (killed) {
        r.status = 12;
        r.sig = "timeout";
        r.msg = "case blocked for 300 s";
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !slot->running) {
        r.status = 0;
    } else if (WIFEXITED(st) && (WEXITSTATUS(st) == 10 || WEXITSTATUS(st) == 12)) {
        r.status = WEXITSTATUS(st);
        r.sig = slot->sig;
        r.msg = slot->msg;
    } else {
        r.status = 99;
        r.sig = "crash";
        r.msg = WIFSIGNALED(st) ? strf("process killed by signal %d", WTERMSIG(st))
                                : strf("process ended with status %d (sanitizer report or exit)", WEXITSTATUS(st));
        Bytes b;
        if (!loud && read_file(errf, b)) {
            r.crash_out.assign(b.begin(), b.end());
            if (r.crash_out.size() > 6000)
                r.crash_out.resize(6000);
        }
    }
    unlink(errf.c_str());
    rmtree(g_base + strf("/s%d", pid));
    return r;
}

static std::vector<uint64_t> shrink(const Prop &p, std::vector<uint64_t> best, const std::string &sig, const Options &o,
                                    unsigned &attempts)
{
    double t0 = now(), budget = o.tier == "thorough" ? 180 : 75;
    unsigned maxa = o.tier == "thorough" ? 6000 : 2500;
    attempts = 0;
    auto ok = [&](const std::vector<uint64_t> &t, std::vector<uint64_t> &norm) {
        attempts++;
        TapeResult r = run_tape(p, t, o);
        if (r.status == 0 || r.sig != sig)
            return false;
        norm = r.tape;
        return true;
    };
    auto more = [&]() { return now() - t0 < budget && attempts < maxa; };
    bool progress = true;
    while (progress && more()) {
        progress = false;
        // delete blocks
        for (size_t blk : {64, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = best.size(); more();) {
                if (i < blk)
                    break;
                i -= blk;
                std::vector<uint64_t> t = best, norm;
                t.erase(t.begin() + (long)i, t.begin() + (long)(i + blk));
                if (ok(t, norm) && norm.size() <= t.size() + 0) {
                    if (norm.size() < best.size()) {
                        best = norm;
                        progress = true;
                        if (i > best.size())
                            i = best.size();
                    }
                }
                if (i == 0)
                    break;
                if (blk > 1 && i > blk)
                    i -= 0;
            }
        }
        // zero blocks
        for (size_t blk : {16, 4, 1})
            for (size_t i = 0; i + blk <= best.size() && more(); i += blk) {
                bool nz = false;
                for (size_t k = 0; k < blk; k++)
                    nz |= best[i + k] != 0;
                if (!nz)
                    continue;
                std::vector<uint64_t> t = best, norm;
                for (size_t k = 0; k < blk; k++)
                    t[i + k] = 0;
                if (ok(t, norm) && (norm.size() < best.size() || (norm.size() == best.size() && norm < best))) {
                    best = norm;
                    progress = true;
                }
            }
        // minimise values
        for (size_t i = 0; i < best.size() && more(); i++) {
            uint64_t lo = 0;
            while (best.size() > i && best[i] > lo && more()) {
                uint64_t mid = lo + (best[i] - lo) / 2;
                std::vector<uint64_t> t = best, norm;
                t[i] = mid;
                if (ok(t, norm) && (norm.size() < best.size() || (norm.size() == best.size() && norm < best))) {
                    best = norm;
                    progress = true;
                } else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

static bool write_replay(const std::string &path, const Prop &p, const TapeResult &r, const std::vector<uint64_t> &tape)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f)
        return false;
    fprintf(f, "pbt-replay 1\nproperty %s\nsub %s\nsig %s\n", p.id, p.sub, r.sig.c_str());
    fprintf(f, "tape %zu", tape.size());
    for (auto v : tape)
        fprintf(f, " %llu", (unsigned long long)v);
    fprintf(f, "\n--- message\n%s\n--- case\n%s\n%s\n", r.msg.c_str(), r.log.c_str(), r.crash_out.c_str());
    fclose(f);
    return true;
}

// Runs a case again, when it uses threads until it fails.
static TapeResult run_again(const Prop &p, const std::vector<uint64_t> &tape, const Options &o)
{
    TapeResult r;
    for (int i = 0; i < (p.racy ? 15 : 1); i++) {
        r = run_tape(p, tape, o);
        if (p.racy && r.status == 12) { // says little
            r.status = 0;
            i += 5;
        }
        if (r.status != 0)
            break;
    }
    return r;
}
// Shrinks, confirms 3x, writes the replay, prints VIOLATION. Returns true if confirmed.
static bool report(const Prop &p, const std::vector<uint64_t> &tape0, const Options &o, std::string &replay_path)
{
    TapeResult r0 = run_again(p, tape0, o);
    if (r0.status == 0) {
        printf("NOTE property=%s sub=%s: a failing case did not fail again when replayed; ignored\n", p.id, p.sub);
        return false;
    }
    unsigned attempts = 0;
    std::vector<uint64_t> best = shrink(p, r0.tape.empty() ? tape0 : r0.tape, r0.sig, o, attempts);
    TapeResult r;
    for (int i = 0; i < 3; i++) {
        r = run_again(p, best, o);
        if (r.status == 0) { // flaky after shrinking: fall back to the original tape
            best = tape0;
            for (int k = 0; k < 3; k++) {
                r = run_again(p, best, o);
                if (r.status == 0) {
                    printf("NOTE property=%s sub=%s: failure is not reproducible; ignored\n", p.id, p.sub);
                    return false;
                }
            }
            break;
        }
    }
    mkdir(o.replay_dir.c_str(), 0755);
    std::string subname = p.sub;
    std::replace(subname.begin(), subname.end(), ' ', '_');
    replay_path = o.replay_dir + "/" + p.id + "-" + subname + ".replay";
    write_replay(replay_path, p, r, best);
    printf("FAILURE property=%s sub=%s sig=%s (shrunk to %zu choices in %u attempts)\n%s\n--- case\n%s\n%s\n", p.id,
           p.sub, r.sig.c_str(), best.size(), attempts, r.msg.c_str(), r.log.c_str(), r.crash_out.c_str());
    return true;
}

struct Stats {
    uint64_t evals = 0, nontriv = 0, discards = 0;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
};

static void save_stats(const std::string &f, const Stats &s)
{
    FILE *fp = fopen(f.c_str(), "w");
    if (!fp)
        return;
    fprintf(fp, "%llu %llu %llu %zu %zu %zu\n", (unsigned long long)s.evals, (unsigned long long)s.nontriv,
            (unsigned long long)s.discards, s.distinct.size(), s.labels.size(), s.samples.size());
    for (auto d : s.distinct)
        fprintf(fp, "%llu\n", (unsigned long long)d);
    for (auto &l : s.labels)
        fprintf(fp, "%llu %s\n", (unsigned long long)l.second, l.first.c_str());
    for (auto &x : s.samples) {
        fprintf(fp, "%zu\n", x.size());
        fwrite(x.data(), 1, x.size(), fp);
        fprintf(fp, "\n");
    }
    fclose(fp);
}
static void load_stats(const std::string &f, Stats &s)
{
    FILE *fp = fopen(f.c_str(), "r");
    if (!fp)
        return;
    unsigned long long a, b, c;
    size_t nd, nl, ns;
    if (fscanf(fp, "%llu %llu %llu %zu %zu %zu\n", &a, &b, &c, &nd, &nl, &ns) == 6) {
        s.evals += a;
        s.nontriv += b;
        s.discards += c;
        for (size_t i = 0; i < nd; i++)
            if (fscanf(fp, "%llu\n", &a) == 1)
                s.distinct.insert(a);
        for (size_t i = 0; i < nl; i++) {
            char buf[512];
            if (fscanf(fp, "%llu %511[^\n]\n", &a, buf) == 2)
                s.labels[buf] += a;
        }
        for (size_t i = 0; i < ns; i++) {
            size_t n;
            if (fscanf(fp, "%zu", &n) != 1)
                break;
            fgetc(fp);
            std::string x(n, 0);
            if (fread(&x[0], 1, n, fp) != n)
                break;
            fgetc(fp);
            s.samples.push_back(x);
        }
    }
    fclose(fp);
}

// Runs all cases of one sub-check. Returns 0 ok, 1 violation.
static int run_prop(const Prop &p, const Options &o, Stats &total, std::string &replay_path, double deadline,
                    bool &capped)
{
    uint64_t n = o.cases ? o.cases : (o.tier == "thorough" ? p.thorough : p.quick);
    int W = o.workers;
    if ((uint64_t)W > n)
        W = (int)n;
    std::vector<Slot *> slots;
    std::vector<pid_t> pids;
    std::vector<std::string> statf;
    uint64_t pseed = hash_str(std::string(p.id) + "/" + p.sub, mix64(o.seed));
    volatile uint32_t *stop = (volatile uint32_t *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                                        MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    fflush(stdout);
    for (int w = 0; w < W; w++) {
        Slot *s = new_slot();
        slots.push_back(s);
        statf.push_back(g_base + strf("/stats.%s.%s.%d", p.id, p.sub, w));
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            std::string errf = g_base + strf("/werr.%d", w);
            int fd = open(errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            close(fd);
            signal(SIGPROF, on_prof);
            std::string sc = g_base + strf("/w%d", w);
            mkdir(sc.c_str(), 0700);
            Stats st;
            for (uint64_t i = (uint64_t)w; i < n && !*stop; i += (uint64_t)W) {
                if (deadline && now() > deadline)
                    break;
                Gen g;
                g.rng = Rng(mix64(pseed ^ mix64(i + 1)));
                s->case_idx = i;
                s->t_start = now();
                s->running = 1;
                int rc = run_case(p, g, s, sc, o.tier == "thorough", &st.labels, false);
                if (rc == 10)
                    _exit(10);
                s->running = 0;
                clean_dir(sc);
                if (rc == 1) {
                    st.discards++;
                    continue;
                }
                st.evals++;
                if (s->nontrivial) {
                    st.nontriv++;
                    st.distinct.insert(hash_bytes((const void *)s->tape, s->ntape * sizeof(uint64_t)));
                    if (st.samples.size() < 2) {
                        std::string smp = s->log;
                        if (smp.size() > 1200)
                            smp.resize(1200);
                        st.samples.push_back(smp);
                    }
                }
                if ((i / (uint64_t)W) % 256 == 255)
                    ftruncate(2, 0);
            }
            save_stats(statf[(size_t)w], st);
            rmtree(sc);
            _exit(0);
        }
        pids.push_back(pid);
    }
    int failed = -1;
    int live = W;
    std::vector<bool> done((size_t)W, false);
    while (live > 0) {
        bool any = false;
        for (int w = 0; w < W; w++) {
            if (done[(size_t)w])
                continue;
            int st;
            pid_t r = waitpid(pids[(size_t)w], &st, WNOHANG);
            if (r == pids[(size_t)w]) {
                done[(size_t)w] = true;
                live--;
                any = true;
                kill(-pids[(size_t)w], SIGKILL);
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    if (failed < 0)
                        failed = w;
                    *stop = 1;
                }
            } else if (slots[(size_t)w]->running && now() - slots[(size_t)w]->t_start > (p.racy ? 60 : 300)) {
                kill(-pids[(size_t)w], SIGKILL);
            }
        }
        if (!any)
            usleep(2000);
        if (failed >= 0) { // let the others finish their current case, then stop them
            double t = now();
            while (now() - t < 5) {
                bool all = true;
                for (int w = 0; w < W; w++)
                    if (!done[(size_t)w]) {
                        int st;
                        if (waitpid(pids[(size_t)w], &st, WNOHANG) == pids[(size_t)w]) {
                            done[(size_t)w] = true;
                            live--;
                            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) &&
                                slots[(size_t)w]->case_idx < slots[(size_t)failed]->case_idx)
                                failed = w;
                        } else
                            all = false;
                    }
                if (all)
                    break;
                usleep(2000);
            }
            for (int w = 0; w < W; w++)
                if (!done[(size_t)w]) {
                    kill(-pids[(size_t)w], SIGKILL);
                    kill(pids[(size_t)w], SIGKILL);
                    int st;
                    waitpid(pids[(size_t)w], &st, 0);
                    done[(size_t)w] = true;
                    live--;
                }
        }
    }
    for (int w = 0; w < W; w++) {
        load_stats(statf[(size_t)w], total);
        rmtree(g_base + strf("/w%d", w));
    }
    if (deadline && now() > deadline)
        capped = true;
    int rc = 0;
    if (failed >= 0) {
        Slot *s = slots[(size_t)failed];
        std::vector<uint64_t> tape(s->tape, s->tape + std::min<size_t>(s->ntape, TAPE_MAX));
        printf("property=%s sub=%s case %llu failed: %s\n", p.id, p.sub, (unsigned long long)s->case_idx, s->msg);
        fflush(stdout);
        if (report(p, tape, o, replay_path))
            rc = 1;
        else
            rc = 3; // not reproducible
    }
    for (auto s : slots)
        munmap(s, sizeof(Slot));
    munmap((void *)stop, 4096);
    return rc;
}

static const Prop *find_prop(const std::vector<Prop> &props, const std::string &id, const std::string &sub)
{
    for (auto &p : props)
        if (id == p.id && (sub.empty() || sub == p.sub))
            return &p;
    return nullptr;
}

static int pbt_main(int argc, char **argv, const std::vector<Prop> &props)
{
    Options o;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop")
            o.prop = val();
        else if (a == "--sub")
            o.sub = val();
        else if (a == "--tier")
            o.tier = val();
        else if (a == "--seed")
            o.seed = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--cases")
            o.cases = strtoull(val().c_str(), nullptr, 0);
        else if (a == "--workers")
            o.workers = atoi(val().c_str());
        else if (a == "--evidence")
            o.evidence = val();
        else if (a == "--replay-dir")
            o.replay_dir = val();
        else if (a == "--replay")
            o.replay = val();
        else if (a == "--from-bytes")
            o.from_bytes = val();
        else if (a == "--max-wall")
            o.max_wall = atof(val().c_str());
        else if (a == "-v")
            o.verbose = true;
        else if (a == "--list") {
            for (auto &p : props)
                printf("%s %s %llu %llu\n", p.id, p.sub, (unsigned long long)p.quick, (unsigned long long)p.thorough);
            return 0;
        } else {
            fprintf(stderr, "unknown option %s\n", a.c_str());
            return 2;
        }
    }
    signal(SIGPIPE, SIG_IGN);
    signal(SIGXFSZ, SIG_IGN);
    const char *shm = access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp";
    std::string tmpl = std::string(shm) + "/bpakpbt.XXXXXX";
    if (!mkdtemp(&tmpl[0])) {
        tmpl = "/tmp/bpakpbt.XXXXXX";
        if (!mkdtemp(&tmpl[0])) {
            perror("mkdtemp");
            return 2;
        }
    }
    g_base = tmpl;
    struct Cleaner {
        ~Cleaner() { rmtree(g_base); }
    } cleaner;
    double t0 = now();

    if (!o.replay.empty()) {
        FILE *f = fopen(o.replay.c_str(), "r");
        char id[64], sub[64], sig[256];
        size_t n = 0;
        if (!f || fscanf(f, "pbt-replay 1\nproperty %63s\nsub %63[^\n]\nsig %255[^\n]\ntape %zu", id, sub, sig, &n) != 4) {
            fprintf(stderr, "bad replay file\n");
            return 2;
        }
        std::vector<uint64_t> tape(n);
        for (auto &v : tape) {
            unsigned long long x;
            if (fscanf(f, "%llu", &x) != 1)
                break;
            v = x;
        }
        fclose(f);
        const Prop *p = find_prop(props, id, sub);
        if (!p) {
            fprintf(stderr, "unknown property %s/%s\n", id, sub);
            return 2;
        }
        TapeResult r = o.verbose ? run_tape(*p, tape, o, true, nullptr, true) : run_again(*p, tape, o);
        printf("%s\n%s\n%s\n", r.log.c_str(), r.msg.c_str(), r.crash_out.c_str());
        if (r.status) {
            printf("VIOLATION property=%s replay=%s\n", p->id, o.replay.c_str());
            return 1;
        }
        printf("replay passes\n");
        return 0;
    }
    if (!o.from_bytes.empty()) {
        const Prop *p = find_prop(props, o.prop, o.sub);
        Bytes raw;
        if (!p || !read_file(o.from_bytes, raw)) {
            fprintf(stderr, "bad --from-bytes\n");
            return 2;
        }
        TapeResult r = run_tape(*p, {}, o, false, &raw);
        if (r.status == 0) {
            printf("bytes pass\n");
            return 0;
        }
        std::string rp;
        if (report(*p, r.tape, o, rp)) {
            printf("VIOLATION property=%s replay=%s\n", p->id, rp.c_str());
            return 1;
        }
        return 0;
    }

    Stats total;
    int worst = 0;
    std::string replay;
    bool capped = false, unrepro = false;
    std::string rules;
    std::string per_sub;
    double deadline = o.max_wall > 0 ? t0 + o.max_wall : 0;
    // with a wall cap every sub-check gets a share of the remaining time
    size_t nsub = 0, isub = 0;
    for (auto &p : props)
        if (o.prop == p.id && (o.sub.empty() || o.sub == p.sub))
            nsub++;
    for (auto &p : props) {
        if (o.prop != p.id || (!o.sub.empty() && o.sub != p.sub))
            continue;
        double dl = deadline ? now() + (deadline - now()) / (double)(nsub - isub) : 0;
        isub++;
        Stats s;
        double ts = now();
        int rc = run_prop(p, o, s, replay, dl, capped);
        printf("%s/%s: %llu cases, %llu non-trivial (%zu distinct), %llu discarded, %.1fs\n", p.id, p.sub,
               (unsigned long long)s.evals, (unsigned long long)s.nontriv, s.distinct.size(),
               (unsigned long long)s.discards, now() - ts);
        fflush(stdout);
        if (!rules.empty())
            rules += " | ";
        rules += std::string(p.sub) + ": " + p.rule;
        total.evals += s.evals;
        total.nontriv += s.nontriv;
        total.discards += s.discards;
        for (auto d : s.distinct)
            total.distinct.insert(mix64(d ^ hash_str(p.sub)));
        for (auto &l : s.labels)
            total.labels[std::string(p.sub) + ": " + l.first] += l.second;
        for (size_t i = 0; i < s.samples.size() && i < 2; i++)
            total.samples.push_back(std::string("[") + p.sub + "] " + s.samples[i]);
        per_sub += strf("%s%s:{\"evaluations\":%llu,\"distinct_nontrivial\":%zu}", per_sub.empty() ? "" : ",",
                        jstr(p.sub).c_str(), (unsigned long long)s.evals, s.distinct.size());
        if (rc == 1) {
            worst = 1;
            printf("VIOLATION property=%s replay=%s\n", p.id, replay.c_str());
            fflush(stdout);
            break;
        }
        if (rc == 3)
            unrepro = true;
        else if (s.nontriv == 0) {
            printf("ERROR property=%s sub=%s: no non-trivial case was generated\n", p.id, p.sub);
            worst = 2;
        }
    }
    if (nsub == 0) {
        fprintf(stderr, "no such property %s\n", o.prop.c_str());
        return 2;
    }
    if (!o.evidence.empty()) {
        FILE *f = fopen(o.evidence.c_str(), "w");
        if (f) {
            fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"nontrivial\":%llu,\"discarded\":%llu,",
                    (unsigned long long)total.evals, total.distinct.size(), (unsigned long long)total.nontriv,
                    (unsigned long long)total.discards);
            fprintf(f, "\"rule\":%s,\"time_capped\":%s,\"unreproducible_failures\":%d,\"sub_checks\":{%s},\"labels\":{",
                    jstr(rules).c_str(), capped ? "true" : "false", unrepro ? 1 : 0, per_sub.c_str());
            bool first = true;
            for (auto &l : total.labels) {
                fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(l.first).c_str(), (unsigned long long)l.second);
                first = false;
            }
            fprintf(f, "},\"samples\":[");
            first = true;
            for (auto &s : total.samples) {
                fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str());
                first = false;
            }
            fprintf(f, "],\"violations\":%d}\n", worst == 1 ? 1 : 0);
            fclose(f);
        }
    }
    return worst;
}

#ifdef PBT_LIBFUZZER
static const Prop *g_fuzz_prop;
static int fuzz_one(const std::vector<Prop> &props, const uint8_t *d, size_t n)
{
    static Slot *slot;
    static std::string sc;
    if (!slot) {
        slot = new_slot();
        const char *id = getenv("PBT_PROP"), *sub = getenv("PBT_SUB");
        g_fuzz_prop = find_prop(props, id ? id : "", sub ? sub : "");
        if (!g_fuzz_prop)
            abort();
        const char *b = getenv("PBT_BASE");
        g_base = b ? b : "/tmp";
        sc = g_base + strf("/bpakpbt.f%d", getpid());
        mkdir(sc.c_str(), 0700);
        signal(SIGXFSZ, SIG_IGN);
        signal(SIGPIPE, SIG_IGN);
        signal(SIGPROF, on_prof);
    }
    Gen g;
    g.mode = Gen::BYTES;
    g.bytes = d;
    g.nbytes = n;
    int rc = run_case(*g_fuzz_prop, g, slot, sc, true, nullptr, false);
    clean_dir(sc);
    if (rc == 10) {
        fprintf(stderr, "FUZZ-FAIL %s\n%s\n", slot->msg, slot->log);
        abort();
    }
    return 0;
}
#define PBT_MAIN(props)                                                                       \
    extern "C" int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) { return pbt::fuzz_one(props, d, n); }
#else
#define PBT_MAIN(props)                                                                       \
    int main(int argc, char **argv) { return pbt::pbt_main(argc, argv, props); }
#endif

} // namespace pbt

extern "C" __attribute__((used)) const char *__asan_default_options()
{
    return "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:abort_on_error=0:"
           "handle_abort=0:detect_stack_use_after_return=0:malloc_context_size=8";
}
extern "C" __attribute__((used)) const char *__ubsan_default_options()
{
    return "halt_on_error=1:exitcode=99:print_stacktrace=1";
}
extern "C" __attribute__((used)) const char *__tsan_default_options()
{
    return "halt_on_error=1:exitcode=99:report_signal_unsafe=0:detect_deadlocks=0:allocator_may_return_null=1";
}
