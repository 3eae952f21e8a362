// Runs the command line tool in a forked child; every file name is relative to a scratch directory.  PBT_NEEDS_CLI
#pragma once
#include "model.hh"
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
extern "C" int bpak_cli_main(int argc, char **argv);

namespace cli {
using namespace pbt;
using namespace model;

typedef std::vector<std::string> Argv;
static inline std::string join(const Argv &a)
{
    std::string s;
    for (auto &x : a) {
        if (!s.empty())
            s += " ";
        s += x.size() > 80 ? x.substr(0, 80) + strf("...(%zu)", x.size()) : x;
    }
    return s;
}
struct Res {
    int status = 0;
    std::string out, err;
    bool ok() const { return status == 0; }
};
static inline std::string fd_all(int fd)
{
    std::string s;
    off_t n = lseek(fd, 0, SEEK_END);
    s.resize((size_t)std::max<off_t>(n, 0));
    if (n > 0 && pread(fd, &s[0], s.size(), 0) != n)
        s.clear();
    close(fd);
    return s;
}
static inline int mem(const std::string &init)
{
    int fd = memfd_create("cli", 0);
    if (fd < 0 || (!init.empty() && write(fd, init.data(), init.size()) != (ssize_t)init.size()))
        FAILF("harness: memfd: %s", strerror(errno));
    lseek(fd, 0, SEEK_SET);
    return fd;
}
struct Limits {
    long fsize = -1; // RLIMIT_FSIZE
};
// exit status as the shell sees it; crashes, sanitizer reports and hangs are failures
static inline Res run(const std::string &dir, const Argv &args, const std::string &in = "", const Limits *lim = nullptr)
{
    int fi = mem(in), fo = mem(""), fe = mem("");
    pid_t pid = fork();
    if (pid < 0)
        FAILF("harness: fork: %s", strerror(errno));
    if (pid == 0) {
        signal(SIGPROF, SIG_DFL);
        if (chdir(dir.c_str()) != 0)
            _exit(98);
        dup2(fi, 0);
        dup2(fo, 1);
        dup2(fe, 2);
        for (int f : {fi, fo, fe})
            close(f);
        struct rlimit r = {30, 31};
        setrlimit(RLIMIT_CPU, &r);
        alarm(120);
        if (lim && lim->fsize >= 0) {
            signal(SIGXFSZ, SIG_IGN);
            r.rlim_cur = r.rlim_max = (rlim_t)lim->fsize;
            setrlimit(RLIMIT_FSIZE, &r);
        }
        std::vector<char *> av;
        av.push_back(strdup("bpak"));
        for (auto &a : args)
            av.push_back(strdup(a.c_str()));
        av.push_back(nullptr);
        int rc = bpak_cli_main((int)av.size() - 1, av.data());
        int bad = fflush(stdout) ? 1 : 0;
        (void)bad;
        fflush(stderr);
        _exit(rc & 255);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    Res r;
    close(fi);
    r.out = fd_all(fo);
    r.err = fd_all(fe);
    if (WIFSIGNALED(st))
        FAILF("'bpak %s' was ended by signal %d\n%s", join(args).c_str(), WTERMSIG(st), r.err.substr(0, 3000).c_str());
    r.status = WEXITSTATUS(st);
    if (r.status == 99)
        FAILF("'bpak %s': memory error\n%s", join(args).c_str(), r.err.substr(0, 3000).c_str());
    if (r.status == 98)
        FAILF("harness: chdir");
    return r;
}

// builds an argument list: options in random spelling and order
struct Line {
    Gen &g;
    std::vector<Argv> groups;
    std::vector<std::string> pos;
    unsigned verbose = 0;
    explicit Line(Gen &g_) : g(g_) {}
    Line &opt(char s, const char *l, const std::string &v)
    {
        switch (g.below(4)) {
        case 0: groups.push_back({std::string("-") + s, v}); break;
        case 1: groups.push_back({std::string("--") + l, v}); break;
        case 2: groups.push_back({std::string("--") + l + "=" + v}); break;
        default:
            if (v.empty())
                groups.push_back({std::string("-") + s, v});
            else
                groups.push_back({std::string("-") + s + v});
        }
        return *this;
    }
    Line &flag(char s, const char *l)
    {
        groups.push_back({g.flip() ? std::string("--") + l : std::string("-") + s});
        return *this;
    }
    Line &arg(const std::string &p)
    {
        pos.push_back(p);
        return *this;
    }
    Argv build(const char *action, bool allow_verbose = true)
    {
        if (allow_verbose && g.chance(20))
            for (uint64_t k = g.range(1, 4); k; k--) {
                flag('v', "verbose");
                verbose++;
            }
        Argv a{action};
        // positional arguments keep their order, options go anywhere
        std::vector<Argv> rest = groups;
        for (size_t i = rest.size(); i > 1; i--)
            std::swap(rest[i - 1], rest[i - 1 - (size_t)g.below(i)]);
        size_t p = 0;
        size_t total = rest.size() + pos.size(), o = 0;
        for (size_t i = 0; i < total; i++) {
            bool positional = o >= rest.size() ? true : p >= pos.size() ? false : g.below(total) < pos.size();
            if (positional)
                a.push_back(pos[p++]);
            else {
                for (auto &x : rest[o])
                    a.push_back(x);
                o++;
            }
        }
        return a;
    }
};

// whole directory, one level
struct Ent {
    bool dir = false;
    Bytes data;
    bool operator==(const Ent &o) const { return dir == o.dir && data == o.data; }
};
typedef std::map<std::string, Ent> Snap;
static inline Snap snap(const std::string &d)
{
    Snap s;
    DIR *dp = opendir(d.c_str());
    if (!dp)
        FAILF("harness: opendir %s", d.c_str());
    while (struct dirent *e = readdir(dp)) {
        std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        struct stat st;
        Ent x;
        if (lstat((d + "/" + n).c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            x.dir = true;
        else
            x.data = slurp(d + "/" + n);
        s[n] = x;
    }
    closedir(dp);
    return s;
}

// archive file -> model (nullptr-like false if the file is not exactly what the model would write)
static inline bool to_arc(const Bytes &f, Arc &a)
{
    if (f.size() < 4096)
        return false;
    ref::Header h = ref::parse(f);
    a = Arc();
    for (auto &m : h.metas)
        a.metas.push_back({m.id, m.ref, m.data});
    size_t off = 4096;
    for (auto &p : h.parts) {
        MPart q;
        q.id = p.id;
        q.size = p.size;
        q.pad = p.pad;
        q.flags = p.flags;
        if (p.stored() > f.size() - off)
            return false;
        q.stored.assign(f.begin() + (long)off, f.begin() + (long)(off + p.stored()));
        off += p.stored();
        a.parts.push_back(q);
    }
    a.hash_kind = h.hash_kind;
    a.sig_kind = h.sig_kind;
    a.align = h.align;
    a.key_id = h.key_id;
    a.ks_id = h.ks_id;
    a.phash = h.payload_hash;
    if (h.sig_sz > 512)
        return false;
    a.sig.assign(h.signature.begin(), h.signature.begin() + h.sig_sz);
    return a.build() == f;
}
} // namespace cli
