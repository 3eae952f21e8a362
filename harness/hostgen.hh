// Archives with arbitrary contents: damaged valid ones of all kinds, arbitrary headers, arbitrary files.
#pragma once
#include "arcgen.hh"
#include "world.hh"

namespace hostgen {
using namespace pbt;
using namespace model;
static const char *KEYS[] = {"p256a", "p384a", "p521a", "rsaa"};
static const uint32_t KNOWN_META[] = {ID_SALT, ID_ROOT, ID_TRANSPORT, ID_PACKAGE, ID_KEYSTORE_PROVIDER, 0x1234, 0xc3ad2a5e, 0x7da19399};

// ---------------------------------------------------------------- file generation
static Bytes base_file(Case &c, Gen &g)
{
    Arc a;
    switch (g.weighted({4, 3, 3, 2})) {
    case 0: {
        arcgen::Opt o;
        o.max_size = 5000;
        o.max_blocks = 3;
        a = arcgen::make(g, o);
        break;
    }
    case 1: {
        world::World w = world::make_world(c, g);
        a = g.flip() ? w.in : w.org;
        break;
    }
    case 2: { // keystore
        Bytes pv(4);
        put(pv, 0, 4, g.flip() ? ref::id("internal") : (uint32_t)g.draw(100));
        a.add_meta(ID_PACKAGE, 0, g.flip() ? Bytes{0x5d, 0xf1, 0x03, 0xef, 0xe7, 0x74, 0x45, 0x0b, 0x95, 0xc5, 0x1f, 0xef, 0x51, 0xce, 0xec, 0x28} : g.content((size_t)g.below(20)));
        a.add_meta(ID_KEYSTORE_PROVIDER, 0, pv);
        for (size_t i = 0, n = (size_t)(g.chance(30) ? g.range(9, 31) : g.range(0, 4)); i < n; i++)
            a.add(0x1000 + (uint32_t)i, slurp(keydir() + KEYS[g.below(4)] + ".pub.der"), 0);
        a.update_hash();
        break;
    }
    default: // as many entries as possible
        for (uint32_t i = 0, n = (uint32_t)g.range(20, 32); i < n; i++)
            a.add(0x1000 + i, g.content((size_t)g.below(40)), g.chance(20) ? 1 : 0);
        for (uint32_t i = 0, n = (uint32_t)g.range(20, 32); i < n; i++)
            a.add_meta(KNOWN_META[g.below(8)], 0x1000 + i, g.content((size_t)g.below(50)));
        while (a.meta_used() > 1920)
            a.metas.pop_back();
        a.update_hash();
    }
    if (g.chance(30))
        for (size_t k = g.range(1, 4); k; k--) { // well known entries of any length
            Bytes d = g.content((size_t)g.below(40));
            if (a.meta_fits(d.size()))
                a.add_meta(KNOWN_META[g.below(8)], g.flip() && !a.parts.empty() ? a.parts[g.below(a.parts.size())].id : (uint32_t)g.below(3), d);
        }
    return a.build();
}
static uint64_t wild(Gen &g, int bytes)
{
    uint64_t v;
    switch (g.weighted({3, 3, 2, 2, 2})) {
    case 0: v = g.below(5); break;
    case 1: v = g.pick<uint64_t>({511, 512, 513, 1024, 4096, 8192, 1920, 65535, 65024, 1ull << 31, 1ull << 32, 0xfffffe00ull, 1ull << 62, 1ull << 63}); break;
    case 2: v = (uint64_t)-(int64_t)g.range(1, 20); break;
    case 3: v = (uint64_t)-(int64_t)(512 * g.range(1, 40)); break;
    default: v = g.draw(0);
    }
    return bytes == 8 ? v : v & ((1ull << (8 * bytes)) - 1);
}
static void mutate(Case &c, Gen &g, Bytes &f)
{
    size_t np = 0, nm = 0;
    while (np < 32 && ref::le(f, ref::H_PARTS + 32 * np, 4))
        np++;
    while (nm < 32 && ref::le(f, ref::H_META + 16 * nm, 4))
        nm++;
    for (size_t k = (size_t)g.range(1, 6); k; k--) {
        switch (g.weighted({6, 5, 2, 2, 2, 2, 1, 2, 1})) {
        case 0: { // field of a part, keeping the padded size aligned most of the time
            size_t i = (size_t)g.below(g.chance(80) && np ? np : 32), o = ref::H_PARTS + 32 * i;
            switch (g.below(7)) {
            case 6: { // coded, with sizes that have nothing in common
                uint64_t v = g.flip() ? wild(g, 8) : (uint64_t)g.range(0, 100000);
                put(f, o + 4, 8, v);
                put(f, o + 28, 2, -v & 511);
                put(f, o + 20, 8, g.flip() ? wild(g, 8) : g.below(3000));
                f[o + 30] = (uint8_t)(2 | (g.chance(20) ? 1 : 0));
                break;
            }
            case 0: put(f, o, 4, np && g.flip() ? ref::le(f, ref::H_PARTS + 32 * g.below(np), 4) : wild(g, 4)); break;
            case 1: {
                uint64_t v = wild(g, 8);
                put(f, o + 4, 8, v);
                if (g.chance(85))
                    put(f, o + 28, 2, -v & 511);
                break;
            }
            case 2: put(f, o + 12, 8, wild(g, 8)); break;
            case 3: put(f, o + 20, 8, wild(g, 8)); break;
            case 4: put(f, o + 28, 2, wild(g, 2)); break;
            default: f[o + 30] = (uint8_t)(g.flip() ? f[o + 30] ^ (1u << g.below(8)) : g.below(256));
            }
            c.log("part %zu changed\n", i);
            break;
        }
        case 1: { // field of a metadata entry
            size_t i = (size_t)g.below(g.chance(80) && nm ? nm : 32), o = ref::H_META + 16 * i;
            switch (g.below(6)) {
            case 0: put(f, o, 4, g.flip() ? KNOWN_META[g.below(8)] : wild(g, 4)); break;
            case 1: put(f, o + 4, 2, g.flip() ? g.below(40) : wild(g, 2)); break;
            case 2: put(f, o + 6, 2, g.flip() ? 1920 - g.below(40) : wild(g, 2)); break;
            case 3: {
                uint64_t sz = g.below(64);
                put(f, o + 4, 2, sz);
                put(f, o + 6, 2, 1920 - sz);
                break;
            }
            case 4: put(f, o + 8, 4, np && g.flip() ? ref::le(f, ref::H_PARTS + 32 * g.below(np), 4) : wild(g, 4)); break;
            default: put(f, o + 12, 4, g.draw(1ull << 32));
            }
            c.log("metadata %zu changed\n", i);
            break;
        }
        case 2: f[g.below(4)] ^= (uint8_t)(1 << g.below(8)); c.log("magic changed\n"); break;
        case 3: {
            size_t at = ref::H_HASHKIND + (size_t)g.below(10);
            f[at] = (uint8_t)g.below(8);
            c.log("byte %zu changed\n", at);
            break;
        }
        case 4: put(f, ref::H_SIGSZ, 2, wild(g, 2)); c.log("signature size changed\n"); break;
        case 5: {
            size_t a = (size_t)g.below(f.size()), n = (size_t)g.range(1, 40);
            for (size_t i = a; i < std::min(f.size(), a + n); i++)
                f[i] = (uint8_t)g.draw(256);
            c.log("%zu bytes at %zu changed\n", n, a);
            break;
        }
        case 6: { // text without an end
            size_t a = ref::H_DATA + (size_t)g.below(1900);
            for (size_t i = a; i < ref::H_HASHKIND; i++)
                f[i] = 'A';
            c.log("metadata text without an end\n");
            break;
        }
        case 7: {
            size_t n = (size_t)(g.flip() ? g.range(0, f.size()) : f.size() > 4096 ? g.range(4096, f.size()) : f.size());
            f.resize(std::max<size_t>(n, 4096));
            c.log("cut to %zu bytes\n", f.size());
            break;
        }
        default: { // extended
            Bytes x = g.content((size_t)(g.chance(30) ? g.below(40000) : g.below(3000)));
            f.insert(f.end(), x.begin(), x.end());
            c.log("extended to %zu bytes\n", f.size());
        }
        }
    }
}
static Bytes hostile(Case &c, Gen &g)
{
    Bytes f;
    switch (g.weighted({20, 2, 1})) {
    case 0:
        f = base_file(c, g);
        mutate(c, g, f);
        break;
    case 1: // arbitrary header
        f = g.content(4096 + (size_t)g.below(5000));
        if (g.chance(90))
            put(f, 0, 4, 0x42504132);
        for (size_t i = 0; i < 32 && g.chance(90); i++) {
            put(f, ref::H_META + 16 * i + 4, 2, g.below(60));
            put(f, ref::H_META + 16 * i + 6, 2, g.below(1860));
        }
        for (size_t i = 0; i < 32; i++) {
            uint64_t v = ref::le(f, ref::H_PARTS + 32 * i + 4, 8) >> g.below(64);
            put(f, ref::H_PARTS + 32 * i + 4, 8, v);
            put(f, ref::H_PARTS + 32 * i + 28, 2, -v & 511);
        }
        c.log("arbitrary header, %zu bytes\n", f.size());
        break;
    default:
        f = g.content((size_t)(g.flip() ? g.below(4097) : g.below(9000)));
        c.log("arbitrary file, %zu bytes\n", f.size());
    }
    return f;
}
} // namespace hostgen
