// Pairs of archives with transport codings, and what encoding them must produce.
#pragma once
#include "delta.hh"
#include "arcgen.hh"
extern "C" {
#include <bpak/pkg.h>
#include <bpak/transport.h>
#include <bpak/id.h>
}
namespace world {
using namespace pbt;
using namespace model;

static const uint32_t ENC[3] = {0x0a878e3e, 0x9f7aacf9, 0x1607e56e}; // bsdiff-no-comp, bsdiff, bsdiff-lzma
static const uint32_t DEC[3] = {0x75622592, 0xb5964388, 0x933a9893};
static const uint32_t REMOVE = 0x57004cd0, MERKLE_GEN = 0xb5bcc58f;

enum Coding { PLAIN, DELTA, TREE };
struct World {
    Arc in, org;
    std::vector<int> coding; // per part of in; -1 plain, 0..2 delta compression, 3 regenerable tree
    bool has_delta = false, has_tree = false;
};
static Bytes uuid(Gen &g)
{
    Bytes u(16);
    Rng r(g.draw(1u << 20));
    for (auto &x : u)
        x = (uint8_t)r.next();
    return u;
}
static void shuffle_parts(Gen &g, Arc &a) // data parts may be in any order, a tree stays behind its data
{
    for (size_t k = g.below(4); k && a.parts.size() > 1; k--) {
        size_t i = g.below(a.parts.size()), j = g.below(a.parts.size());
        std::swap(a.parts[i], a.parts[j]);
    }
    for (size_t i = 0; i < a.parts.size(); i++)
        for (size_t j = i + 1; j < a.parts.size(); j++)
            if (ref::tree_id(a.parts[j].id) == a.parts[i].id) {
                std::swap(a.parts[i], a.parts[j]);
                break;
            }
}
static World make_world(Case &c, Gen &g, bool lonely_parts = true, bool empty = false)
{
    World w;
    size_t max = c.thorough ? 30000 : 6000;
    Bytes u = uuid(g);
    w.in.hash_kind = (uint8_t)g.range(1, 3);
    w.org.hash_kind = (uint8_t)g.range(1, 3);
    w.in.add_meta(ID_PACKAGE, 0, u);
    w.org.add_meta(ID_PACKAGE, 0, u);
    size_t n = empty && g.chance(3) ? 0 : (size_t)g.range(1, 5);
    std::map<uint32_t, int> cod;
    for (size_t i = 0; i < n; i++) {
        uint32_t id = arcgen::part_id(g, i);
        uint8_t fl = g.chance(20) ? 1 : 0;
        bool tree = g.chance(30);
        Bytes o, t;
        size_t mx = tree ? 4096 * (c.thorough ? 10 : 4) : max;
        o = g.content((size_t)g.edge_size(mx));
        t = g.chance(80) ? delta::edit(c, g, o, mx, false) : g.content((size_t)g.edge_size(mx));
        if (tree) {
            t.resize(std::max<size_t>(1, (t.size() + 2048) / 4096) * 4096, 0);
            w.in.add_with_tree(id, t, g.content(32), fl);
        } else
            w.in.add(id, t, fl);
        bool delta = g.chance(60);
        cod[id] = delta ? delta::pick_comp(g) : -1;
        uint32_t tid = ref::tree_id(id);
        if (tree)
            cod[tid] = g.chance(60) ? 3 : g.chance(30) ? delta::pick_comp(g) : -1;
        bool in_origin = delta || (tree && cod[tid] >= 0 && cod[tid] < 3) || !lonely_parts || g.chance(70);
        if (in_origin) {
            if (tree && g.chance(80)) {
                o.resize(std::max<size_t>(1, (o.size() + 2048) / 4096) * 4096, 0);
                w.org.add_with_tree(id, o, g.content(32), fl);
            } else {
                w.org.add(id, o, g.chance(15) ? 1 : 0);
                if (tree && (cod[tid] >= 0 && cod[tid] < 3))
                    w.org.add(tid, g.content(4096), fl);
            }
        }
    }
    if (g.chance(30))
        w.org.add(0x7777, g.content((size_t)g.edge_size(2000)), 0);
    if (g.chance(30))
        w.in.add_meta(0x21, 0, g.content((size_t)g.range(0, 60)));
    shuffle_parts(g, w.in);
    shuffle_parts(g, w.org);
    for (auto &p : w.in.parts) {
        int k = cod.count(p.id) ? cod[p.id] : -1;
        w.coding.push_back(k);
        if (k >= 0 && k < 3)
            w.in.add_transport(p.id, ENC[k], DEC[k]), w.has_delta = true;
        else if (k == 3)
            w.in.add_transport(p.id, REMOVE, MERKLE_GEN), w.has_tree = true;
    }
    if (g.chance(50)) {
        w.in.key_id = (uint32_t)g.draw(1ull << 32);
        w.in.sig = g.content((size_t)g.range(1, 512));
        w.in.sig_kind = (uint8_t)g.range(1, 4);
    }
    w.in.update_hash();
    w.org.update_hash();
    c.log("origin ");
    arcgen::describe(c, w.org);
    c.log("input ");
    arcgen::describe(c, w.in);
    c.log("codings:");
    for (int k : w.coding)
        c.log(" %s", k < 0 ? "plain" : k == 3 ? "tree" : delta::comp_name(k));
    c.log("\n");
    return w;
}

struct Pkg {
    bpak_package *p;
    bool open = false;
    Pkg() { p = (bpak_package *)calloc(1, sizeof *p); }
    ~Pkg()
    {
        if (open)
            bpak_pkg_close(p);
        free(p);
    }
    int open_file(const std::string &f, const char *mode)
    {
        int rc = bpak_pkg_open(p, f.c_str(), mode);
        open = rc == BPAK_OK;
        return rc;
    }
    int close()
    {
        int rc = open ? bpak_pkg_close(p) : 0;
        open = false;
        return rc;
    }
};
// file based coding; returns the library's result (close included)
static int file_code(bool encode, const std::string &in, const std::string &out, const std::string &org)
{
    Pkg i, o, g;
    CHECK(i.open_file(in, "rb") == BPAK_OK, "cannot open the input");
    if (!org.empty())
        CHECK(g.open_file(org, "rb") == BPAK_OK, "cannot open the origin");
    CHECK(o.open_file(out, "wb+") == BPAK_OK, "cannot open the output");
    int rc = encode ? bpak_pkg_transport_encode(i.p, o.p, org.empty() ? nullptr : g.p)
                    : bpak_pkg_transport_decode(i.p, o.p, org.empty() ? nullptr : g.p);
    int cr = o.close();
    return rc ? rc : cr;
}

// checks that the encoded file is what the codings ask for
static void check_encoded(const World &w, const Bytes &orgf, const Bytes &enc)
{
    CHECK(enc.size() >= 4096, "encoded archive has %zu bytes", enc.size());
    Arc e = w.in;
    size_t pos = 4096;
    for (size_t i = 0; i < e.parts.size(); i++) {
        MPart &p = e.parts[i];
        uint8_t fl = enc[ref::H_PARTS + 32 * i + 30];
        uint64_t ts = ref::le(enc, ref::H_PARTS + 32 * i + 20, 8);
        if (w.coding[i] < 0) {
            CHECK(fl == p.flags && ts == 0, "part %zu is not coded, but has flags %u transport size %llu", i, fl, (unsigned long long)ts);
        } else {
            CHECK(fl == (p.flags | 2), "coded part %zu has flags %u", i, fl);
            CHECK(pos + ts <= enc.size(), "part %zu: transport size %llu exceeds the file (%zu bytes)", i, (unsigned long long)ts, enc.size());
            Bytes st(enc.begin() + (long)pos, enc.begin() + (long)(pos + ts));
            if (w.coding[i] == 3)
                CHECK(ts == 0, "regenerable tree stored with %llu bytes", (unsigned long long)ts);
            else {
                int k = w.org.find(p.id);
                Bytes raw, got;
                CHECK(delta::plain(st, w.coding[i], raw), "part %zu: stored data is not a %s stream", i, delta::comp_name(w.coding[i]));
                CHECK(delta::ref_apply(raw, w.org.parts[(size_t)k].stored, got), "part %zu: stored data is not a delta", i);
                CHECK(got == p.stored, "part %zu: the delta means other data: %s", i, diff_desc(got, p.stored).c_str());
            }
            p.stored = st;
            p.flags |= 2;
        }
        pos += p.stored.size();
    }
    Bytes want = e.build();
    CHECK(enc == want, "encoded archive: %s", cmp(enc, want).c_str());
    (void)orgf;
}

} // namespace world
