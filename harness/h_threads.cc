// C42 operations on different archives and contexts can run at the same time in several threads.
// PBT_TSAN PBT_WRAP(random)
#include "scen.hh"
#include <thread>
#include <sys/wait.h>
#include <sys/mman.h>
extern "C" {
#include <bpak/id.h>
#include <bpak/utils.h>
}

struct Actor {
    Scenario s;
    int rc = 0;
    Bytes out; // results of the run alone
    int times = 1, got_rc = 0;
    Bytes got;
    std::string bad;
    std::exception_ptr ex;
};
static thread_local uint64_t seed = 0;
extern "C" {
long __real_random(void);
long __wrap_random(void) // each operation has its own numbers
{
    if (!seed)
        return __real_random();
    seed = seed * 6364136223846793005ull + 1442695040888963407ull;
    return (long)(seed >> 33);
}
}
// questions that need no context
static void sc_texts(Case &c, Gen &g, Scenario &s)
{
    struct Q {
        int kind;
        uint32_t v;
        std::string t;
    };
    static const uint32_t known[] = {ID_SALT, ID_ROOT, ID_TRANSPORT, ID_PACKAGE, ID_KEYSTORE_PROVIDER, ENC[0], ENC[1], DEC[0], REMOVE, MERKLE_GEN};
    std::vector<Q> qs;
    size_t n = (size_t)g.range(1, 40);
    for (size_t i = 0; i < n; i++) {
        Q q;
        q.kind = (int)g.below(8);
        q.v = q.kind == 3 ? (g.chance(60) ? known[g.below(10)] : (uint32_t)g.draw(1ull << 32)) : (uint32_t)g.below(45);
        Bytes b = g.content((size_t)g.range(0, 60));
        for (uint8_t k : b)
            q.t += (char)('a' + k % 26);
        qs.push_back(q);
    }
    s.what = strf("%zu questions for texts, ids and checksums", n);
    s.run = [qs]() -> int {
        for (auto &q : qs)
            switch (q.kind) {
            case 0: {
                const char *t = bpak_error_string(-(int)q.v);
                rec(t, strlen(t));
                break;
            }
            case 1: {
                const char *t = bpak_signature_kind((uint8_t)q.v);
                if (t)
                    rec(t, strlen(t));
                break;
            }
            case 2: {
                const char *t = bpak_hash_kind((uint8_t)q.v);
                if (t)
                    rec(t, strlen(t));
                break;
            }
            case 3: {
                const char *t = bpak_id_to_string(q.v);
                if (t)
                    rec(t, strlen(t));
                break;
            }
            case 4: {
                uint32_t id = bpak_id(q.t.c_str());
                rec(&id, 4);
                break;
            }
            case 5: {
                const char *t = bpak_version();
                rec(t, strlen(t));
                break;
            }
            case 6: {
                char o[128];
                uint8_t raw[40];
                for (size_t i = 0; i < sizeof raw; i++)
                    raw[i] = (uint8_t)(q.v * 7 + i);
                bpak_bin2hex(raw, q.v % 40, o, sizeof o);
                rec(o, strlen(o));
                break;
            }
            default: {
                char o[64];
                uint8_t raw[16];
                for (size_t i = 0; i < sizeof raw; i++)
                    raw[i] = (uint8_t)(q.v * 11 + i);
                bpak_uuid_to_string(raw, o, sizeof o);
                rec(o, strlen(o));
            }
            }
        return 0;
    };
    c.log("%s\n", s.what.c_str());
}
static void perform(Actor &a)
{
    try {
        if (a.s.reset)
            a.s.reset();
        Bytes out;
        REC = &out;
        seed = 12345;
        int rc = a.s.run();
        REC = nullptr;
        seed = 0;
        a.got_rc = rc;
        a.got = std::move(out);
    } catch (...) {
        REC = nullptr;
        seed = 0;
        a.ex = std::current_exception();
    }
}
static void judge(Actor &a, const char *when)
{
    if (a.ex) {
        auto e = a.ex;
        a.ex = nullptr;
        std::rethrow_exception(e);
    }
    CHECK(a.got_rc == a.rc, "%s, run %s: result %d, alone %d", a.s.what.c_str(), when, a.got_rc, a.rc);
    CHECK(a.got == a.out, "%s, run %s, gives other results than alone: %s", a.s.what.c_str(), when, diff_desc(a.got, a.out).c_str());
}
static void threads(Case &c, std::initializer_list<unsigned> weights)
{
    Gen &g = c.g;
    P.arm(0, 0, 0);
    P.hook = nullptr;
    REC = nullptr;
    h_live = 0;
    a_live = 0;
    std::string top = c.scratch;
    size_t n = (size_t)g.range(2, 4);
    std::vector<std::unique_ptr<Actor>> as;
    bool alike = g.chance(50); // operations of the same kind are more likely to share something
    size_t kind = (size_t)g.weighted(weights);
    for (size_t i = 0; i < n; i++) {
        as.emplace_back(new Actor);
        std::string d = top + strf("/%zu", i);
        mkdir(d.c_str(), 0755);
        c.scratch = d;
        size_t k = alike ? kind : g.weighted(weights);
        if (k == 8)
            sc_texts(c, g, as.back()->s);
        else
            as.back()->s = pick_kind(c, g, k, g.chance(20));
        as.back()->times = (int)g.range(1, 3);
    }
    c.scratch = top;
    for (auto &a : as) {
        perform(*a);
        if (a->ex)
            judge(*a, "alone");
        a->rc = a->got_rc;
        a->out = a->got;
    }
    for (int r = 0; r < 2; r++) {
        std::atomic<size_t> ready{0};
        std::vector<std::thread> ts;
        for (auto &p : as) {
            Actor *a = p.get();
            ts.emplace_back([a, n, &ready] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n) // no order between the threads
                    std::this_thread::yield();
                for (int k = 0; k < a->times && !a->ex; k++) {
                    perform(*a);
                    if (!a->ex && a->bad.empty() && (a->got_rc != a->rc || a->got != a->out)) {
                        a->bad = "once";
                        break;
                    }
                }
            });
        }
        for (auto &t : ts)
            t.join();
        for (auto &a : as)
            judge(*a, "while others ran in other threads");
    }
    sound_backends("at the end");
    c.label(alike ? "alike" : "mixed");
    c.nontrivial();
}
static void fake(Case &c)
{
    backends(true, true, true);
    mask_signatures = false;
    threads(c, {3, 3, 3, 3, 4, 5, 2, 4, 0});
}
static void builtin(Case &c)
{
    backends(false, false, false);
    mask_signatures = true;
    threads(c, {2, 3, 3, 3, 4, 6, 3, 4, 3});
}
// The first operations of a process, in threads.  The generators below do not call the library, so that nothing of it
// has been used when the child starts.
struct Outcome {
    int rc;
    uint64_t n, hash;
    uint32_t texts;
};
static void first_use(Case &c)
{
    Gen &g = c.g;
    P.arm(0, 0, 0);
    P.hook = nullptr;
    REC = nullptr;
    mask_signatures = true;
    std::string top = c.scratch;
    size_t n = (size_t)g.range(2, 4);
    std::vector<std::unique_ptr<Actor>> as;
    bool alike = g.chance(70);
    static const size_t kinds[] = {8, 0, 2, 3, 5, 6};
    size_t kind = kinds[g.weighted({5, 1, 2, 2, 2, 2})];
    for (size_t i = 0; i < n; i++) {
        as.emplace_back(new Actor);
        std::string d = top + strf("/%zu", i);
        mkdir(d.c_str(), 0755);
        c.scratch = d;
        size_t k = alike ? kind : kinds[g.weighted({3, 1, 2, 2, 2, 2})];
        if (k == 8)
            sc_texts(c, g, as.back()->s);
        else
            as.back()->s = pick_kind(c, g, k, g.chance(20));
    }
    c.scratch = top;
    Outcome *o = (Outcome *)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    CHECK(o != MAP_FAILED, "harness: no memory");
    for (int turn = 0; turn < 2; turn++) { // in threads, then alone
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        CHECK(pid >= 0, "harness: no process");
        if (!pid) {
            alarm(50);
            if (!turn) {
                std::atomic<size_t> ready{0};
                std::vector<std::thread> ts;
                for (auto &p : as) {
                    Actor *a = p.get();
                    ts.emplace_back([a, n, &ready] {
                        ready.fetch_add(1, std::memory_order_relaxed);
                        while (ready.load(std::memory_order_relaxed) < n)
                            std::this_thread::yield();
                        perform(*a);
                    });
                }
                for (auto &t : ts)
                    t.join();
            } else
                for (auto &a : as)
                    perform(*a);
            for (size_t i = 0; i < n; i++)
                o[turn * 8 + (int)i] = Outcome{as[i]->ex ? 12345 : as[i]->got_rc, as[i]->got.size(), hash_bytes(as[i]->got.data(), as[i]->got.size()), 1};
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (turn && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            munmap(o, 8192);
            FAILF("the operations alone end the process (%s %d)", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
            c.label("slow");
            munmap(o, 8192);
            return;
        }
        if (!turn && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            munmap(o, 8192);
            FAILF("first operations of a process in %zu threads: %s %d (see the report)", n, WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
        }
    }
    Outcome t[4], l[4];
    memcpy(t, o, sizeof t);
    memcpy(l, o + 8, sizeof l);
    munmap(o, 8192);
    for (size_t i = 0; i < n; i++)
        CHECK(t[i].texts && l[i].texts && t[i].rc == l[i].rc && t[i].n == l[i].n && t[i].hash == l[i].hash, "%s, among the first operations of a process, in threads: result %d and %llu bytes, alone %d and %llu bytes%s",
              as[i]->s.what.c_str(), t[i].rc, (unsigned long long)t[i].n, l[i].rc, (unsigned long long)l[i].n, t[i].n == l[i].n ? " (with other content)" : "");
    c.label(alike ? "alike" : "mixed");
    c.nontrivial();
}
static std::vector<Prop> props = {
    {"C42", "built-in backends", builtin, 1000, 16000,
     "2 to 4 operations of any kind (deltas, patches, trees, verification, streaming and file coding, archive histories, keystores, texts and ids; a fifth on damaged input), each with its own files and contexts, alone and then at the same time in threads of their own, "
     "under a data race detector; results and output bytes must be those of the run alone, and no memory may be shared without order (signature bytes are not compared); non-trivial: every case", 60, true},
    {"C42", "own backends", fake, 600, 10000, "the same with a hash, signature and key backend and an allocator of the user; non-trivial: every case", 60, true},
    {"C42", "first use", first_use, 2000, 30000, "2 to 4 operations (texts and ids, deltas, trees, verification, archive histories, keystores) in threads as the first thing a process does with the library; non-trivial: every case", 60, true},
};
PBT_MAIN(props)
