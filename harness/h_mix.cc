// C36 operations on different archives and contexts do not influence each other.
// PBT_WRAP(fwrite) PBT_WRAP(fread) PBT_WRAP(fseek) PBT_WRAP(fopen) PBT_WRAP(fclose) PBT_WRAP(random)
#include "scen.hh"
extern "C" {
#include <bpak/id.h>
#include <bpak/utils.h>
}

struct Actor {
    Scenario s;
    std::string dir;
    std::map<std::string, std::vector<uint64_t>> points; // where the run alone can be interrupted: call -> point numbers
    int rc = 0;
    Bytes out;           // results of the run alone
};
// one running operation
struct Frame {
    uint64_t seed = 1, at = 0, n = 0; // is interrupted at point number at
    Actor *guest = nullptr;
    std::vector<std::pair<uint64_t, Actor *>> *more = nullptr; // for the guest
    Frame *up = nullptr;
    std::map<std::string, std::vector<uint64_t>> *points = nullptr; // to be recorded
};
static Frame *F = nullptr;
static void play(Actor &a, std::vector<std::pair<uint64_t, Actor *>> guests, const char *when, bool check, std::map<std::string, std::vector<uint64_t>> *points = nullptr);
static bool busy = false; // inside the harness
static void point(const char *what)
{
    if (!F || busy)
        return;
    if (F->points) {
        busy = true;
        auto &v = (*F->points)[what];
        if (v.size() < 100000)
            v.push_back(F->n + 1);
        busy = false;
    }
    if (++F->n != F->at || !F->guest)
        return;
    Actor *g = F->guest;
    F->guest = nullptr;
    play(*g, *F->more, "while another operation is in progress", true);
}
extern "C" {
size_t __real_fwrite(const void *p, size_t s, size_t n, FILE *f);
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) { return point("fwrite"), __real_fwrite(p, s, n, f); }
size_t __real_fread(void *p, size_t s, size_t n, FILE *f);
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f)
{
    point("fread");
    size_t r = __real_fread(p, s, n, f);
    point("fread done");
    return r;
}
int __real_fseek(FILE *f, long o, int w);
int __wrap_fseek(FILE *f, long o, int w) { return point("fseek"), __real_fseek(f, o, w); }
int __real_fclose(FILE *f);
int __wrap_fclose(FILE *f) { return point("fclose"), __real_fclose(f); }
FILE *__real_fopen(const char *n, const char *m);
FILE *__wrap_fopen(const char *n, const char *m)
{
    point("fopen");
    return __real_fopen(n, m);
}
long __real_random(void);
long __wrap_random(void) // each operation has its own numbers
{
    if (!F)
        return __real_random();
    F->seed = F->seed * 6364136223846793005ull + 1442695040888963407ull;
    return (long)(F->seed >> 33);
}
}
static void play(Actor &a, std::vector<std::pair<uint64_t, Actor *>> guests, const char *when, bool check, std::map<std::string, std::vector<uint64_t>> *points)
{
    Frame f;
    f.up = F;
    if (!guests.empty()) {
        f.at = guests[0].first;
        f.guest = guests[0].second;
        guests.erase(guests.begin());
    }
    f.more = &guests;
    f.points = points;
    Bytes out, *old = REC;
    busy = true;
    if (a.s.reset)
        a.s.reset();
    busy = false;
    F = &f;
    REC = &out;
    int rc = a.s.run();
    REC = old;
    F = f.up;
    if (!check) {
        a.rc = rc;
        a.out = out;
        return;
    }
    CHECK(rc == a.rc, "%s, run %s: result %d, alone %d", a.s.what.c_str(), when, rc, a.rc);
    CHECK(out == a.out, "%s, run %s, gives other results than alone: %s", a.s.what.c_str(), when, diff_desc(out, a.out).c_str());
}
static void mix(Case &c, std::initializer_list<unsigned> weights)
{
    Gen &g = c.g;
    P.arm(0, 0, 0);
    F = nullptr;
    REC = nullptr;
    busy = false;
    P.hook = nullptr;
    h_live = 0;
    a_live = 0;
    std::string top = c.scratch;
    size_t n = (size_t)g.range(2, 4);
    std::vector<std::unique_ptr<Actor>> as;
    bool alike = g.chance(35); // operations of the same kind are more likely to share something
    size_t kind = (size_t)g.below(8);
    for (size_t i = 0; i < n; i++) {
        as.emplace_back(new Actor);
        as.back()->dir = top + strf("/%zu", i);
        mkdir(as.back()->dir.c_str(), 0755);
        c.scratch = as.back()->dir;
        as.back()->s = pick_kind(c, g, alike ? kind : g.weighted(weights), g.chance(25));
    }
    c.scratch = top;
    P.hook = point;
    for (auto &a : as) {
        play(*a, {}, "", false, &a->points);
        play(*a, {}, "a second time", true);
    }
    size_t rounds = (size_t)g.range(3, c.thorough ? 14 : 7);
    bool inside = false;
    for (size_t r = 0; r < rounds; r++) {
        Actor &a = *as[g.below(n)];
        std::vector<std::pair<uint64_t, Actor *>> guests;
        std::string d = a.s.what.substr(0, 30);
        Actor *cur = &a;
        size_t depth = 1 + (size_t)g.chance(30);
        for (size_t k = 0; k < depth && !cur->points.empty(); k++) {
            Actor *b = as[g.below(n)].get();
            bool used = b == &a;
            for (auto &x : guests)
                used = used || x.second == b;
            if (used)
                break; // an operation is not run inside itself: it would use the same files
            auto at = std::next(cur->points.begin(), (long)g.below(cur->points.size())); // rare calls as often as frequent ones
            const char *own = g.pick({"", "", "verify", "sign", "load key", "parse key"});
            if (cur->points.count(own))
                at = cur->points.find(own);
            guests.push_back({at->second[g.below(at->second.size())], b});
            d += strf(" | at %llu (%s): %s", (unsigned long long)guests.back().first, at->first.c_str(), b->s.what.substr(0, 30).c_str());
            cur = b;
        }
        if (!guests.empty())
            inside = true;
        c.log("round %zu: %s\n", r, d.c_str());
        play(a, guests, guests.empty() ? "after other operations" : "with another one in between", true);
    }
    P.hook = nullptr;
    if (inside)
        c.nontrivial();
    c.label(inside ? "nested" : "one after another");
}
static void fake(Case &c)
{
    backends(true, true, true);
    mask_signatures = false;
    mix(c, {3, 3, 3, 3, 5, 6, 2, 5});
}
static void builtin(Case &c)
{
    backends(false, false, true);
    mask_signatures = true;
    mix(c, {1, 2, 2, 2, 4, 7, 4, 5});
}
// texts that are handed out stay what they are
static void texts(Case &c)
{
    Gen &g = c.g;
    static const uint32_t known[] = {ID_SALT, ID_ROOT, ID_TRANSPORT, ID_PACKAGE, ID_KEYSTORE_PROVIDER, ENC[0], ENC[1], DEC[0], REMOVE, MERKLE_GEN};
    struct T {
        const char *p;
        std::string s, what;
    };
    std::vector<T> ts;
    size_t n = (size_t)g.range(2, 30);
    for (size_t i = 0; i < n; i++) {
        T t;
        switch (g.below(5)) {
        case 0: {
            int k = -(int)g.below(45);
            t.p = bpak_error_string(k);
            t.what = strf("error string %d", k);
            break;
        }
        case 1: {
            uint8_t k = (uint8_t)g.edge_size(255);
            t.p = bpak_signature_kind(k);
            t.what = strf("signature kind %u", k);
            break;
        }
        case 2: {
            uint8_t k = (uint8_t)g.edge_size(255);
            t.p = bpak_hash_kind(k);
            t.what = strf("hash kind %u", k);
            break;
        }
        case 3:
            t.p = bpak_version();
            t.what = "version";
            break;
        default: {
            uint32_t k = g.chance(70) ? known[g.below(10)] : (uint32_t)g.draw(1ull << 32);
            t.p = bpak_id_to_string(k);
            t.what = strf("id %08x", k);
        }
        }
        if (!t.p)
            continue;
        t.s = t.p;
        for (auto &o : ts)
            CHECK(o.what != t.what || o.s == t.s, "%s is '%s' now and was '%s'", t.what.c_str(), t.s.c_str(), o.s.c_str());
        ts.push_back(t);
    }
    for (auto &t : ts)
        CHECK(t.s == t.p, "%s was '%s' when it was handed out and is '%s' now", t.what.c_str(), t.s.c_str(), t.p);
    if (ts.size() > 1)
        c.nontrivial();
}
static std::vector<Prop> props = {
    {"C36", "own backends", fake, 3500, 60000,
     "2 to 4 operations of any kind (deltas, patches, trees, verification, streaming and file coding, archive histories, keystores; a quarter on damaged input), each with its own files, alone, again, one after another, and one (or two) run completely inside "
     "another at a random callback, allocation, hash, key or file call; results and output bytes must be those of the run alone; non-trivial: at least one operation ran inside another", 60},
    {"C36", "built-in backends", builtin, 3000, 50000, "the same with the built-in hash and signature code (signature bytes are not compared); non-trivial: as above", 60},
    {"C36", "texts", texts, 5000, 50000, "texts for error codes, kinds, ids and the version, kept while others are asked for; non-trivial: two texts", 60},
};
PBT_MAIN(props)
