// C38 options, help and refusals of the command line tool.
// PBT_NEEDS_CLI
#include "world.hh"
#include "cli.hh"
#include "hostgen.hh"
extern "C" {
#include <bpak/bpak.h>
}
using namespace pbt;
using namespace model;
using namespace cli;

struct Opt {
    char s;
    const char *l;
    bool arg;
};
struct Cmd {
    const char *name;
    std::vector<Opt> opts;
};
// the options of the usage texts that the commands know (--version belongs to the top level)
static const std::vector<Cmd> CMDS = {
    {"add", {{'p', "part", true}, {'m', "meta", true}, {'f', "from-file", true}, {'s', "from-string", true}, {'e', "encoder", true}, {'F', "set-flag", true}, {'r', "part-ref", true}}},
    {"create", {{'Y', "force", false}, {'H', "hash-kind", true}, {'S', "signature-kind", true}}},
    {"set", {{'m', "meta", true}, {'s', "from-string", true}, {'e', "encoder", true}, {'k', "key-id", true}, {'i', "keystore-id", true}}},
    {"show", {{'m', "meta", true}, {'p', "part", true}, {'P', "part-hash", true}, {'H', "hash", false}, {'B', "binary-hash", false}}},
    {"delete", {{'p', "part", true}, {'a', "all", false}, {'k', "keep-meta", false}}},
    {"extract", {{'m', "meta", true}, {'p', "part", true}, {'o', "output", true}, {'r', "part-ref", true}}},
    {"compare", {}},
    {"generate", {{'n', "name", true}, {'d', "decorate", false}}},
    {"sign", {{'k', "key", true}, {'f', "signature", true}}},
    {"verify", {{'k', "key", true}, {'K', "keystore", true}}},
    {"transport", {{'a', "add", false}, {'O', "origin", true}, {'o', "output", true}, {'e', "encoder", true}, {'d', "decoder", true}, {'E', "encode", false}, {'D', "decode", false}, {'p', "part", true}}},
};

// one option or file name with its meaning
struct Item {
    const Opt *o = nullptr; // null: see kind
    enum Kind { OPTION, FILE, VERBOSE, HELP, UNKNOWN, NOARG } kind = OPTION;
    std::string val;
};
static const Opt VERB = {'v', "verbose", false}, HLP = {'h', "help", false};
static const Opt TREF = {'r', "part-ref", true}; // another name of transport's --part

static std::string value(Gen &g, const Cmd &c, const Opt &o)
{
    std::string n = c.name;
    switch (o.s) {
    case 'f': return n == "sign" ? g.pick({"sig", "missing", "data"}) : g.pick({"data", "missing", "dir", "sig"});
    case 'F': return "dont-hash";
    case 'H': return g.pick({"sha256", "sha384", "sha512", "sha1", ""});
    case 'S': return g.pick({"prime256v1", "secp384r1", "secp521r1", "rsa4096", "rsa"});
    case 'e': return n == "transport" ? g.pick({"bsdiff", "bsdiff-lzma", "remove-data", "noise"}) : g.pick({"integer", "id", "uuid", "key", "merkle", "noise"});
    case 'd': return g.pick({"bspatch", "bspatch-lzma", "merkle-generate", "noise"});
    case 'o': return g.pick({"out1", "out2", "dir/out3", "nodir/out", "dir"});
    case 'O': return g.pick({"b.bpak", "missing", "junk"});
    case 'k': return n == "set" ? g.pick({"0x11", "key one", "-k"}) : g.pick({"key.pem", "pub.pem", "missing", "junk"});
    case 'K': return g.pick({"a.bpak", "missing", "junk"});
    case 's': return g.pick({"17", "0x20", "text with spaces", "", "-s", "--help", "5df103ef-e774-450b-95c5-1fef51ceec28"});
    default:
        if (g.chance(60))
            return o.s == 'm' ? "m1" : "fs";
        return g.pick({"fs", "m1", "0x1234abcd", "nothing", "-h", "--help", "--", "bpak-package", "pb-load-addr", "-v"});
    }
}
static void unspell(Argv &av, Gen &g, std::string &cluster)
{
    (void)g;
    if (!cluster.empty())
        av.push_back("-" + cluster);
    cluster.clear();
}
// items in a random spelling; adjacent short options may be clustered
static Argv spell(Gen &g, const Cmd &cmd, const std::vector<Item> &items)
{
    Argv av{cmd.name};
    std::string cl;
    for (auto &it : items) {
        const Opt *o = it.kind == Item::VERBOSE ? &VERB : it.kind == Item::HELP ? &HLP : it.o;
        if (o && o->s == 'p' && !strcmp(cmd.name, "transport") && g.flip())
            o = &TREF;
        if (it.kind == Item::FILE || it.kind == Item::UNKNOWN) {
            unspell(av, g, cl);
            av.push_back(it.val);
            continue;
        }
        if (it.kind == Item::NOARG) {
            unspell(av, g, cl);
            av.push_back(g.flip() ? std::string("-") + o->s : std::string("--") + o->l);
            continue;
        }
        if (g.chance(45)) { // long
            unspell(av, g, cl);
            if (!o->arg)
                av.push_back(std::string("--") + o->l);
            else if (g.flip())
                av.push_back(std::string("--") + o->l + "=" + it.val);
            else {
                av.push_back(std::string("--") + o->l);
                av.push_back(it.val);
            }
            continue;
        }
        if (!cl.empty() && !g.chance(60))
            unspell(av, g, cl);
        cl += o->s;
        if (o->arg) {
            if (!it.val.empty() && g.flip()) {
                cl += it.val;
                unspell(av, g, cl);
            } else {
                unspell(av, g, cl);
                av.push_back(it.val);
            }
        }
    }
    unspell(av, g, cl);
    return av;
}

struct Dir {
    std::string path;
    Snap before;
};
static Dir make_dir(Case &c, const char *name, const Arc &a, const Arc &b)
{
    Dir d;
    d.path = c.path(name);
    mkdir(d.path.c_str(), 0700);
    mkdir((d.path + "/dir").c_str(), 0700);
    auto put = [&](const char *n, const Bytes &x) {
        if (!write_file(d.path + "/" + n, x))
            FAILF("harness: write");
    };
    put("a.bpak", a.build());
    put("b.bpak", b.build());
    put("data", Bytes(700, 0x41));
    put("sig", Bytes(70, 0x30));
    put("junk", Bytes(5000, 0x11));
    put("empty", Bytes());
    put("key.pem", slurp(keydir() + "p256a.key.pem"));
    put("pub.pem", slurp(keydir() + "p256a.pub.pem"));
    d.before = snap(d.path);
    return d;
}
static bool same(const Snap &a, const Snap &b, std::string &what)
{
    for (auto &x : a) {
        auto i = b.find(x.first);
        if (i == b.end() || !(i->second == x.second)) {
            what = x.first;
            return false;
        }
    }
    for (auto &x : b)
        if (!a.count(x.first)) {
            what = x.first;
            return false;
        }
    return true;
}
static size_t files(const std::vector<Item> &v)
{
    size_t n = 0;
    for (auto &i : v)
        n += i.kind == Item::FILE;
    return n;
}
static unsigned num(const std::vector<Item> &v, char s)
{
    unsigned n = 0;
    for (auto &i : v)
        n += i.kind == Item::OPTION && i.o->s == s;
    return n;
}
static bool has(const std::vector<Item> &v, char s) { return num(v, s) > 0; }
static std::string first_file(const std::vector<Item> &v)
{
    for (auto &i : v)
        if (i.kind == Item::FILE)
            return i.val;
    return "";
}
// command lines that cannot have a meaning
static const char *incomplete(const Cmd &cmd, const std::vector<Item> &v)
{
    std::string n = cmd.name;
    size_t f = files(v);
    if (f < 1)
        return "no file name";
    if (n == "compare" && f < 2)
        return "one file name";
    if (n == "generate") {
        std::string what = first_file(v);
        if (what != "id" && what != "keystore")
            return "unknown generator";
        if (f < 2)
            return "nothing to generate from";
        if (what == "keystore" && !has(v, 'n'))
            return "no keystore name";
    }
    if (n == "add" && !has(v, 'p') && !has(v, 'm'))
        return "neither part nor metadata";
    if (n == "add" && !has(v, 'f') && !has(v, 's'))
        return "nothing to add";
    if (n == "add" && !has(v, 'm') && !has(v, 'f'))
        return "part without a file";
    if (n == "set" && !has(v, 'm') && !has(v, 'k') && !has(v, 'i'))
        return "nothing to set";
    if (n == "set" && has(v, 'm') && !has(v, 's'))
        return "no value to set";
    if (n == "delete" && !has(v, 'p') && !has(v, 'a'))
        return "neither part nor all";
    if (n == "extract" && has(v, 'p') == has(v, 'm'))
        return "neither or both of part and metadata";
    if (n == "sign" && !has(v, 'k') && !has(v, 'f'))
        return "neither key nor signature";
    if (n == "verify" && !has(v, 'k') && !has(v, 'K'))
        return "neither key nor keystore";
    if (n == "transport") {
        int k = has(v, 'a') + has(v, 'E') + has(v, 'D');
        if (k != 1)
            return "not exactly one of add, encode and decode";
        if (has(v, 'a') && (!has(v, 'e') || !has(v, 'd')))
            return "no encoder or decoder";
        if (!has(v, 'a') && !has(v, 'o'))
            return "no output";
    }
    return nullptr;
}
static std::vector<Item> make_items(Gen &g, const Cmd &cmd)
{
    std::vector<Item> v;
    size_t n = cmd.opts.empty() ? 0 : (size_t)g.range(0, std::min<size_t>(5, cmd.opts.size() + 1));
    for (size_t i = 0; i < n; i++) {
        Item it;
        it.o = &cmd.opts[g.below(cmd.opts.size())];
        bool again = false;
        for (auto &x : v)
            again |= x.o == it.o;
        if (again)
            continue;
        if (it.o->arg)
            it.val = value(g, cmd, *it.o);
        v.push_back(it);
    }
    size_t nf = (size_t)g.weighted({1, 6, strcmp(cmd.name, "compare") == 0 || strcmp(cmd.name, "generate") == 0 ? 12u : 1u});
    // the library turns an empty file into an archive, commands that modify are not run on one
    bool modifies = false;
    for (const char *m : {"add", "set", "delete", "sign", "transport"})
        modifies |= !strcmp(cmd.name, m);
    for (size_t i = 0; i < nf; i++) {
        Item it;
        it.kind = Item::FILE;
        if (!strcmp(cmd.name, "generate") && i == 0)
            it.val = g.pick({"id", "keystore", "keystore", "ids"});
        else if (!strcmp(cmd.name, "create"))
            it.val = g.pick({"new.bpak", "new2.bpak", "nodir/x.bpak", "dir"});
        else
            it.val = g.chance(85) ? (i ? "b.bpak" : "a.bpak") : g.pick({"junk", modifies ? "junk" : "empty", "missing", "dir"});
        // file names keep their order, they go anywhere between the options
        size_t from = 0;
        for (size_t k = 0; k < v.size(); k++)
            if (v[k].kind == Item::FILE)
                from = k + 1;
        v.insert(v.begin() + (long)(from + g.below(v.size() - from + 1)), it);
    }
    for (uint64_t k = g.chance(25) ? g.range(1, 4) : 0; k; k--) {
        Item it;
        it.kind = Item::VERBOSE;
        v.insert(v.begin() + (long)g.below(v.size() + 1), it);
    }
    return v;
}
static Arc small(Gen &g)
{
    arcgen::Opt o;
    o.max_size = 3000;
    o.max_parts = 4;
    o.max_blocks = 1;
    Arc a = arcgen::make(g, o);
    if (g.flip() && a.find_meta(ref::id("bpak-package"), 0) < 0 && a.metas.size() < 32 && a.meta_used() + 16 <= 1920)
        a.metas.push_back({ref::id("bpak-package"), 0, Bytes(16, 0x5d)});
    // mostly with the names of the command lines
    if (g.chance(80) && a.metas.size() < 32 && a.meta_used() + 32 <= 1920)
        a.add_meta(ref::id("m1"), g.chance(20) ? ref::id("fs") : 0, g.content((size_t)g.range(1, 20)));
    if (g.chance(80))
        a.add(ref::id("fs"), g.content((size_t)g.range(0, 900)), g.chance(20) ? 1 : 0);
    if (g.chance(80))
        a.update_hash();
    return a;
}

// help, unknown options, missing arguments and required options
static void options(Case &c)
{
    Gen &g = c.g;
    const Cmd &cmd = CMDS[g.below(CMDS.size())];
    std::vector<Item> v = make_items(g, cmd);
    size_t specials = (size_t)g.weighted({6, 4, 1});
    for (size_t i = 0; i < specials; i++) {
        Item it;
        switch (g.below(3)) {
        case 0: it.kind = Item::HELP; break;
        case 1: {
            it.kind = Item::UNKNOWN;
            it.val = g.pick({"--nonsense", "--nonsense=1", "-Z", "-@", "-q", "-x7", "--output-x", "--helpme", "-", "---", "--=x"});
            if (it.val == "-") // a file name for getopt
                it.val = "-Zv";
            break;
        }
        default: {
            std::vector<const Opt *> w;
            for (auto &o : cmd.opts)
                if (o.arg)
                    w.push_back(&o);
            if (w.empty() || i > 0)
                continue;
            it.kind = Item::NOARG;
            it.o = w[g.below(w.size())];
            v.push_back(it); // only the last word can lack its argument
            continue;
        }
        }
        v.insert(v.begin() + (long)g.below(v.size() + (v.empty() || v.back().kind != Item::NOARG ? 1 : 0)), it);
    }
    const Item *first = nullptr;
    for (auto &i : v)
        if (!first && (i.kind == Item::HELP || i.kind == Item::UNKNOWN || i.kind == Item::NOARG))
            first = &i;
    Argv av = spell(g, cmd, v);
    Arc a = small(g), b = small(g);
    Dir d = make_dir(c, "wd", a, b);
    c.log("bpak %s\n", join(av).c_str());
    Res r = run(d.path, av);
    std::string what;
    bool untouched = same(d.before, snap(d.path), what);
    const char *inc = first ? nullptr : incomplete(cmd, v);
    if (first && first->kind == Item::HELP) {
        c.label("help");
        c.nontrivial();
        CHECK(r.ok(), "'bpak %s' failed with status %d: %s", join(av).c_str(), r.status, r.err.c_str());
        CHECK(r.out.find(std::string("bpak ") + cmd.name) != std::string::npos, "'bpak %s' does not print the usage of the command: '%s'", join(av).c_str(), r.out.substr(0, 200).c_str());
        for (auto &o : cmd.opts) // an aid has to name the options
            if (o.arg && std::string(cmd.name) != "transport")
                CHECK(r.out.find(std::string("-") + o.s) != std::string::npos, "'bpak %s' does not mention -%c", join(av).c_str(), o.s);
        CHECK(untouched, "'bpak %s' changed %s", join(av).c_str(), what.c_str());
    } else if (first || inc) {
        const char *why = first ? first->kind == Item::UNKNOWN ? "unknown option" : "missing argument" : inc;
        c.label(why);
        c.nontrivial();
        CHECK(!r.ok(), "'bpak %s' (%s) reported success", join(av).c_str(), why);
        CHECK(untouched, "'bpak %s' (%s) changed %s", join(av).c_str(), why, what.c_str());
    } else {
        c.label(r.ok() ? "done" : "failed");
        if (!r.ok())
            c.nontrivial();
    }
    if (!r.ok())
        CHECK(!r.err.empty(), "'bpak %s' ended with status %d without a word on standard error", join(av).c_str(), r.status);
}

static std::vector<std::string> lines(const std::string &s)
{
    std::vector<std::string> v;
    size_t p = 0;
    while (p < s.size()) {
        size_t e = s.find('\n', p);
        if (e == std::string::npos)
            e = s.size();
        v.push_back(s.substr(p, e - p));
        p = e + 1;
    }
    return v;
}
// every option that the help of a command lists is one of the command, takes an argument if the list says so, and
// --help after it is still understood
static void documented(Case &c)
{
    Gen &g = c.g;
    const Cmd &cmd = CMDS[g.below(CMDS.size())];
    Arc a = small(g);
    Dir d = make_dir(c, "wd", a, a);
    Res h = run(d.path, {cmd.name, g.flip() ? "-h" : "--help"});
    CHECK(h.ok(), "'bpak %s --help' failed", cmd.name);
    struct Listed {
        std::string word;
        int arg; // 1: the list names an argument
    };
    std::vector<Listed> opts;
    for (auto &l : lines(h.out)) {
        char s;
        char lo[64];
        int end = 0;
        if (sscanf(l.c_str(), " -%c, --%63[a-z-]%n", &s, lo, &end) != 2 || !end || s == 'h')
            continue;
        int arg = l[(size_t)end] == '=' || (l.size() > (size_t)end + 1 && l[(size_t)end + 1] == '<');
        opts.push_back({std::string("-") + s, arg});
        opts.push_back({std::string("--") + lo, arg});
    }
    // those of the user guide
    for (auto &o : cmd.opts) {
        opts.push_back({std::string("-") + o.s, o.arg});
        opts.push_back({std::string("--") + o.l, o.arg});
    }
    c.nontrivial();
    Argv av{cmd.name};
    for (size_t n = (size_t)g.range(1, 4); n; n--) {
        const Listed &o = opts.empty() ? Listed{"-v", 0} : opts[g.below(opts.size())];
        av.push_back(o.word);
        // an operand if the option takes no argument (the list does not always name it)
        av.push_back(o.word == "-F" || o.word == "--set-flag" ? "dont-hash"
                         : o.word == "-H" || o.word == "--hash-kind" ? g.pick({"sha256", "sha512"})
                         : o.word == "-S" || o.word == "--signature-kind" ? g.pick({"prime256v1", "rsa4096"})
                         : o.arg ? g.pick({"a.bpak", "fs", "0x12", "-h", "--add", "17"}) : g.pick({"a.bpak", "fs", "data"}));
    }
    if (g.chance(30)) { // the argument of an option is not optional
        std::vector<Listed> w;
        for (auto &o : opts)
            if (o.arg)
                w.push_back(o);
        if (!w.empty()) {
            av.push_back(w[g.below(w.size())].word);
            Res r = run(d.path, av);
            std::string what;
            c.label("argument missing");
            c.log("bpak %s\n", join(av).c_str());
            CHECK(!r.ok() && !r.err.empty(), "'bpak %s' lacks the argument of its last option but reported success", join(av).c_str());
            CHECK(same(d.before, snap(d.path), what), "'bpak %s' changed %s", join(av).c_str(), what.c_str());
            return;
        }
    }
    av.push_back(g.flip() ? "-h" : "--help");
    c.log("bpak %s\n", join(av).c_str());
    Res r = run(d.path, av);
    c.label("listed");
    CHECK(r.ok(), "the options of 'bpak %s' are those of the help, but it failed with status %d: %s", join(av).c_str(), r.status, r.err.c_str());
    CHECK(r.out.find(std::string("bpak ") + cmd.name) != std::string::npos, "'bpak %s' does not print the usage of the command: '%s'", join(av).c_str(), r.out.substr(0, 200).c_str());
    std::string what;
    CHECK(same(d.before, snap(d.path), what), "'bpak %s' changed %s", join(av).c_str(), what.c_str());
}

// the top level: no command, help, version, unknown commands and options
static void toplevel(Case &c)
{
    Gen &g = c.g;
    Arc a = small(g);
    Dir d = make_dir(c, "wd", a, a);
    Argv av;
    int kind = (int)g.below(5);
    switch (kind) {
    case 0: break;
    case 1: av = {g.pick({"-h", "--help"})}; break;
    case 2: av = {g.pick({"-V", "--version"})}; break;
    case 3: av = {g.pick({"-Z", "--nonsense", "-v", "--part", "--versionx", "-p"})}; break;
    default: {
        std::string w;
        if (g.flip()) {
            w = CMDS[g.below(CMDS.size())].name;
            switch (g.below(5)) {
            case 0: w += g.pick({"x", "s", " ", "-"}); break;
            case 1: w.pop_back(); break;
            case 2: w[0] = (char)(w[0] - 32); break;
            case 3: w = " " + w; break;
            default: w[g.below(w.size())] ^= 1; break;
            }
        } else
            for (size_t n = (size_t)g.range(0, 9); n; n--)
                w += (char)g.range('a', 'z');
        for (auto &x : CMDS)
            if (w == x.name)
                throw Discard{};
        av = {w};
    }
    }
    if (kind == 1 || kind == 2 || kind == 3 || kind == 4)
        for (uint64_t n = g.below(4); n; n--)
            av.push_back(g.pick({"a.bpak", "create", "delete", "-a", "--all", "-Y", "new.bpak"}));
    if (kind != 4 && !av.empty() && av.size() > 1 && g.chance(0))
        av.resize(1);
    c.log("bpak %s\n", join(av).c_str());
    Res r = run(d.path, av);
    std::string what, all = join(av);
    CHECK(same(d.before, snap(d.path), what), "'bpak %s' changed %s", all.c_str(), what.c_str());
    std::string ver = std::string(bpak_version());
    unsigned x, y, z;
    int end = 0;
    CHECK(sscanf(ver.c_str(), "%u.%u.%u%n", &x, &y, &z, &end) == 3 && end == (int)ver.size(), "the version is '%s'", ver.c_str());
    if (kind <= 1) {
        CHECK(r.ok(), "'bpak %s' failed with status %d", all.c_str(), r.status);
        for (auto &k : CMDS)
            CHECK(r.out.find(k.name) != std::string::npos, "'bpak %s' does not mention the command %s", all.c_str(), k.name);
    } else if (kind == 2) {
        CHECK(r.ok() && r.out.find(ver) != std::string::npos, "'bpak %s' does not print the version %s but '%s' (status %d)", all.c_str(), ver.c_str(), r.out.substr(0, 200).c_str(), r.status);
    } else {
        CHECK(!r.ok(), "'bpak %s' reported success", all.c_str());
        CHECK(!r.err.empty(), "'bpak %s' ended with status %d without a word on standard error", all.c_str(), r.status);
    }
    c.label(kind == 0 ? "nothing" : kind == 1 ? "help" : kind == 2 ? "version" : kind == 3 ? "unknown option" : "unknown command");
    c.nontrivial();
}

// the same command in two spellings and orders, the second one possibly with more verbosity
static void spellings(Case &c)
{
    Gen &g = c.g;
    const Cmd &cmd = CMDS[g.below(CMDS.size())];
    std::vector<Item> v = make_items(g, cmd), w;
    for (size_t i = 0; i < v.size();)
        if (v[i].kind == Item::VERBOSE)
            v.erase(v.begin() + (long)i);
        else
            i++;
    // mostly complete ones
    for (int tries = 0; tries < 4 && incomplete(cmd, v); tries++) {
        v = make_items(g, cmd);
        for (size_t i = 0; i < v.size();)
            if (v[i].kind == Item::VERBOSE)
                v.erase(v.begin() + (long)i);
            else
                i++;
    }
    w = v;
    for (size_t i = w.size(); i > 1; i--)
        std::swap(w[i - 1], w[g.below(i)]);
    { // file names keep their order
        std::vector<Item> f;
        for (auto &i : v)
            if (i.kind == Item::FILE)
                f.push_back(i);
        size_t k = 0;
        for (auto &i : w)
            if (i.kind == Item::FILE)
                i = f[k++];
    }
    unsigned verb = g.chance(60) ? (unsigned)g.range(1, 4) : 0;
    for (unsigned k = 0; k < verb; k++) {
        Item it;
        it.kind = Item::VERBOSE;
        w.insert(w.begin() + (long)g.below(w.size() + 1), it);
    }
    bool random = !strcmp(cmd.name, "sign") && has(v, 'k');
    for (auto &i : v)
        random |= i.kind == Item::OPTION && i.o->s == 'e' && i.val == "merkle";
    Arc a = small(g), b = small(g);
    Dir d1 = make_dir(c, "w1", a, b), d2 = make_dir(c, "w2", a, b);
    Argv x = spell(g, cmd, v), y = spell(g, cmd, w);
    c.log("bpak %s\nbpak %s\n", join(x).c_str(), join(y).c_str());
    Res r1 = run(d1.path, x), r2 = run(d2.path, y);
    std::string what;
    CHECK(r1.status == r2.status, "'bpak %s' ends with status %d, 'bpak %s' with %d", join(x).c_str(), r1.status, join(y).c_str(), r2.status);
    if (!random) {
        Snap s1 = snap(d1.path), s2 = snap(d2.path);
        CHECK(same(s1, s2, what), "'bpak %s' and 'bpak %s' leave different contents in %s", join(x).c_str(), join(y).c_str(), what.c_str());
        Bytes o1, o2;
        bool e1 = read_file(d1.path + "/dir/out3", o1), e2 = read_file(d2.path + "/dir/out3", o2);
        if (e1 != e2 || o1 != o2)
            FAILF("'bpak %s' and 'bpak %s' leave different contents in dir/out3", join(x).c_str(), join(y).c_str());
        if (!verb)
            CHECK(r1.out == r2.out, "'bpak %s' and 'bpak %s' print different things:\n%s\nand\n%s", join(x).c_str(), join(y).c_str(), r1.out.c_str(), r2.out.c_str());
        // more may be printed, but nothing less (what is extracted or hashed as raw data has no lines)
        else if (std::string(cmd.name) != "extract" && !has(v, 'B')) {
            auto l1 = lines(r1.out), l2 = lines(r2.out);
            size_t k = 0;
            for (auto &l : l2)
                if (k < l1.size() && l1[k] == l)
                    k++;
            CHECK(k == l1.size(), "'bpak %s' does not print the line '%s' that 'bpak %s' prints", join(y).c_str(), l1[k].c_str(), join(x).c_str());
        } else
            CHECK(r2.out.find(r1.out) != std::string::npos, "'bpak %s' does not print what 'bpak %s' prints", join(y).c_str(), join(x).c_str());
    }
    c.label(r1.ok() ? "done" : "failed");
    c.label(verb ? "with verbosity" : "spelling");
    if (r1.ok())
        c.nontrivial();
}

// an archive in which nothing more has room, or that is not what it seems
static Bytes awkward(Case &c, Gen &g)
{
    if (g.chance(40))
        return hostgen::hostile(c, g);
    Arc a = small(g);
    int full = (int)g.below(4);
    if (full == 0)
        while (a.metas.size() < 32 && a.meta_used() + 16 <= 1920)
            a.metas.push_back({(uint32_t)(0x1000 + a.metas.size()), 0, Bytes(8, 1)});
    else if (full == 1)
        while (a.meta_used() + 256 <= 1920 && a.metas.size() < 32)
            a.metas.push_back({(uint32_t)(0x1000 + a.metas.size()), 0, Bytes(200, 1)});
    else if (full == 2)
        while (a.parts.size() < 32)
            a.add(0x2000 + (uint32_t)a.parts.size(), Bytes(g.below(3), 7), 0);
    Bytes f = a.build();
    if (full == 3)
        f.resize(g.below(f.size() + 1));
    c.log("%s, %zu parts, %zu metadata, %zu bytes\n", full == 0 ? "all entries used" : full == 1 ? "metadata area used" : full == 2 ? "all parts used" : "truncated", a.parts.size(), a.metas.size(), f.size());
    return f;
}
// whatever goes wrong is told
static void messages(Case &c)
{
    Gen &g = c.g;
    const Cmd &cmd = CMDS[g.below(CMDS.size())];
    std::vector<Item> v = make_items(g, cmd);
    for (int tries = 0; tries < 6 && incomplete(cmd, v); tries++)
        v = make_items(g, cmd);
    Arc a = small(g);
    Dir d = make_dir(c, "wd", a, a);
    for (const char *n : {"a.bpak", "b.bpak"})
        if (g.chance(n[0] == 'a' ? 80 : 50) && !write_file(d.path + "/" + n, awkward(c, g)))
            FAILF("harness: write");
    Argv av = spell(g, cmd, v);
    Limits lim;
    if (g.chance(30))
        lim.fsize = (long)g.below(g.flip() ? 6000 : 20000);
    c.log("bpak %s\n", join(av).c_str());
    if (lim.fsize >= 0)
        c.log("files end at %ld bytes\n", lim.fsize);
    Res r = run(d.path, av, "", &lim);
    c.label(std::string(cmd.name) + (r.ok() ? " done" : " failed"));
    if (r.ok())
        return;
    c.nontrivial();
    CHECK(!r.err.empty() || lim.fsize == 0, "'bpak %s' ended with status %d without a word on standard error", join(av).c_str(), r.status);
}

static std::vector<Prop> props = {
    {"C38", "options", options, 5000, 60000,
     "command lines of all commands with random subsets of their options in any order and spelling (short, long, joined, clustered; arguments that look like options), with help, unknown options, a missing argument, or without required options or file names, in a directory of good and bad files; the first of them decides what must happen, refused and help command lines may not touch a file, and no failure may be silent; non-trivial: help, refused or failed", 60},
    {"C38", "top level", toplevel, 800, 10000, "no command, help, version, unknown options and commands (near misses of the real ones), with further words; non-trivial: all", 60},
    {"C38", "documented options", documented, 1500, 20000,
     "one to four of the options that the help of a command lists (read from its output) or the user guide uses, short or long, with and without a value, then --help: all accepted, usage printed, no file touched; or the last one without its argument: refused; non-trivial: all", 60},
    {"C38", "messages", messages, 4000, 60000,
     "complete command lines on archives whose entries, metadata area or parts are all in use, truncated, damaged or hostile ones, and with a limit on the size of files: a status other than 0 comes with a message on standard error; non-trivial: the command failed", 60},
    {"C38", "spellings", spellings, 3000, 40000,
     "the same command in two random spellings and orders on two copies of the same files, the second one with up to four -v: status, files and (without -v) output must be the same, with -v nothing may be missing from the output; non-trivial: the command succeeded", 60},
};
PBT_MAIN(props)
