// Random archives, built by the model (no call into the code under test).
#pragma once
#include "model.hh"

namespace arcgen {
using namespace pbt;
using namespace model;

struct Opt {
    size_t max_parts = 5, max_size = 9000, max_blocks = 4;
    unsigned tree_pct = 25, enc_pct = 10, excl_pct = 30, meta_pct = 50;
    bool unique_salt = true;
};
static inline uint32_t part_id(Gen &g, size_t i)
{
    static const char *n[] = {"fs", "kernel", "boot", "data", "x", "initrd"};
    return i < 6 ? ref::id(n[i]) : 0x1000 + (uint32_t)i;
}
static inline Arc make(Gen &g, const Opt &o)
{
    Arc a;
    a.hash_kind = (uint8_t)g.range(1, 3);
    size_t n = (size_t)g.range(0, o.max_parts);
    for (size_t i = 0; i < n; i++) {
        uint32_t id = part_id(g, i);
        uint8_t fl = g.chance(o.excl_pct) ? 1 : 0;
        if (g.chance(o.tree_pct)) {
            Bytes salt = g.content(32);
            a.add_with_tree(id, g.content(4096 * (size_t)g.range(1, o.max_blocks)), salt, fl);
        } else if (g.chance(o.enc_pct))
            a.add_encoded(id, g.edge_size(o.max_size), g.content((size_t)g.edge_size(o.max_size)), fl);
        else
            a.add(id, g.content((size_t)g.edge_size(o.max_size)), fl);
    }
    if (g.chance(o.meta_pct)) {
        size_t m = (size_t)g.range(1, 4);
        for (size_t i = 0; i < m; i++)
            a.add_meta(0x20 + (uint32_t)i, g.flip() && n ? a.parts[g.below(a.parts.size())].id : 0, g.content((size_t)g.range(0, 60)));
    }
    if (g.chance(40)) {
        a.key_id = (uint32_t)g.draw(1ull << 32);
        a.ks_id = (uint32_t)g.draw(1ull << 32);
    }
    a.update_hash();
    return a;
}
static inline void describe(Case &c, const Arc &a)
{
    c.log("archive: hash kind %u, %zu metadata entries, %zu parts:", a.hash_kind, a.metas.size(), a.parts.size());
    for (auto &p : a.parts)
        c.log(" %08x(%llu%s%s)", p.id, (unsigned long long)p.size, p.flags & 1 ? ",excluded" : "", p.flags & 2 ? ",encoded" : "");
    c.log("\n");
}
} // namespace arcgen
