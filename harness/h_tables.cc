// C05 metadata table, C06 part table, C07 header acceptance and opening.
#include "pbt.hh"
#include "ref.hh"
extern "C" {
#include <bpak/bpak.h>
#include <bpak/pkg.h>
}
using namespace pbt;
using ref::put;
using ref::le;

static const uint32_t IDS[] = {0x1, 0x2, 0x3, 0x7da19399, 0x9a5bab69, 0xffffffff, 0x80000000, 0x2d44bbfb, 0x10, 0x11};

struct MEnt {
    uint32_t id, ref;
    uint16_t size;
    Bytes data;
};
static size_t al8(size_t n) { return (n + 7) & ~(size_t)7; }
static size_t used(const std::vector<MEnt> &m)
{
    size_t n = 0;
    for (auto &e : m)
        n += al8(e.size);
    return n;
}
static void render_meta(Bytes &img, const std::vector<MEnt> &m)
{
    memset(&img[ref::H_META], 0, 32 * 16);
    memset(&img[ref::H_DATA], 0, 1920);
    size_t off = 0, i = 0;
    for (auto &e : m) {
        size_t o = ref::H_META + 16 * i++;
        put(img, o, 4, e.id);
        put(img, o + 4, 2, e.size);
        put(img, o + 6, 2, off);
        put(img, o + 8, 4, e.ref);
        memcpy(&img[ref::H_DATA + off], e.data.data(), e.data.size());
        off += al8(e.size);
    }
}
static Bytes image(const bpak_header *h) { return Bytes((const uint8_t *)h, (const uint8_t *)h + sizeof *h); }

static void must_equal(const bpak_header *h, const Bytes &want, const char *op)
{
    Bytes got = image(h);
    if (got == want)
        return;
    size_t i = first_diff(got, want);
    const char *area = i < ref::H_META ? "magic" : i < ref::H_PARTS ? "metadata headers" : i < ref::H_DATA ? "part table"
                     : i < ref::H_HASHKIND ? "metadata bytes" : "fields after the metadata area";
    FAILF("after %s the header differs from the model at byte %zu (%s): %02x, expected %02x", op, i, area, got[i], want[i]);
}

static void c05(Case &c)
{
    Gen &g = c.g;
    // exactly sized heap block: an access past the header is caught
    bpak_header *h = (bpak_header *)malloc(sizeof *h);
    struct F { void *p; ~F() { free(p); } } fr{h};
    CHECK(bpak_init_header(h) == BPAK_OK, "init_header failed");
    Bytes base(4096, 0);
    put(base, 0, 4, 0x42504132);
    base[ref::H_HASHKIND] = 1;
    base[ref::H_SIGKIND] = 2;
    put(base, ref::H_ALIGN, 2, 512);
    CHECK(image(h) == base, "a fresh header is not the documented empty header: %s", diff_desc(image(h), base).c_str());
    // everything outside the metadata gets sentinels that must survive
    if (g.flip()) {
        Rng r(g.draw(1u << 30));
        for (size_t i = ref::H_PARTS; i < ref::H_DATA; i++)
            base[i] = (uint8_t)r.next();
        for (size_t i = ref::H_HASHKIND; i < 4096; i++)
            base[i] = (uint8_t)r.next();
        memcpy(h, base.data(), 4096);
    }
    std::vector<MEnt> m;
    size_t nops = (size_t)g.range(1, 60);
    unsigned dels = 0, fulls = 0, adds = 0;
    unsigned profile = (unsigned)g.below(4); // 0 mixed, 1 tiny entries, 2 large entries, 3 fill up
    for (size_t k = 0; k < nops; k++) {
        switch (g.weighted({6, 3, 2, 2, 1, 1, 1})) {
        case 0: { // add
            uint32_t id = IDS[g.below(10)], rf = g.flip() ? 0 : IDS[g.below(10)];
            if (profile == 1 || profile == 3)
                id = (uint32_t)(0x100 + g.below(60));
            size_t left = 1920 - used(m), sz;
            switch (g.weighted({profile == 1 ? 12u : 5u, profile >= 2 ? 6u : 2u, 1, 1, 1, 1})) {
            case 0: sz = (size_t)g.range(0, 40); break;
            case 1: sz = (size_t)g.range(0, 400); break;
            case 2: sz = left; break;
            case 3: sz = left + 1; break;
            case 4: sz = left > 8 ? left - (size_t)g.range(0, 8) : left; break;
            default: sz = (size_t)g.pick<uint64_t>({1920, 1921, 65535, 65528, 32768, 2048}); break;
            }
            if (sz > 65535)
                sz = 65535;
            int want = BPAK_OK;
            for (auto &e : m)
                if (e.id == id && e.ref == rf)
                    want = -BPAK_EXISTS;
            if (!want && m.size() == 32)
                want = -BPAK_NO_SPACE_LEFT;
            if (!want && sz > left)
                want = -BPAK_NO_SPACE_LEFT;
            bpak_meta_header *mh = nullptr;
            if (g.chance(4)) {
                // id 0 marks unused entries
                c.log("add id=0 ref=%x size=%zu\n", rf, sz);
                CHECK(bpak_add_meta(h, 0, rf, (uint16_t)sz, &mh) != BPAK_OK, "an entry with id 0 was added");
                break;
            }
            c.log("add id=%x ref=%x size=%zu (left %zu)\n", id, rf, sz, left);
            int rc = bpak_add_meta(h, id, rf, (uint16_t)sz, &mh);
            CHECK((rc == BPAK_OK) == (want == BPAK_OK), "add_meta of %zu bytes with %zu left and %zu entries returned %d, expected %d",
                  sz, left, m.size(), rc, want);
            if (rc) {
                fulls += want == -BPAK_NO_SPACE_LEFT;
                CHECK(rc == want || (m.size() == 32 && sz > left), "add_meta returned %s, expected %s", bpak_error_string(rc),
                      bpak_error_string(want));
            } else {
                adds++;
                CHECK(mh == &h->meta[m.size()], "add_meta returned the wrong slot");
                m.push_back({id, rf, (uint16_t)sz, Bytes(sz, 0)});
                // "written" bytes; some entries are left as they are handed out
                if (g.chance(80)) {
                    Rng r(g.draw(1u << 20));
                    for (auto &b : m.back().data)
                        b = (uint8_t)(r.next() | 1);
                    memcpy(bpak_get_meta_ptr(h, mh, uint8_t), m.back().data.data(), sz);
                }
            }
            break;
        }
        case 1: { // delete
            if (m.empty())
                break;
            size_t i = (size_t)g.below(m.size());
            if (g.chance(30))
                i = m.size() - 1;
            c.log("del #%zu of %zu (size %u)\n", i, m.size(), m[i].size);
            bpak_meta_header *mh = nullptr;
            CHECK(bpak_get_meta(h, m[i].id, m[i].ref, &mh) == BPAK_OK, "entry %zu not found", i);
            bpak_del_meta(h, mh);
            m.erase(m.begin() + (long)i);
            dels++;
            break;
        }
        case 2: { // look up
            uint32_t id = IDS[g.below(10)], rf = g.flip() ? 0 : IDS[g.below(10)];
            if (!m.empty() && g.flip()) {
                id = m[g.below(m.size())].id;
                if (g.flip())
                    rf = m[g.below(m.size())].ref;
            }
            if (g.chance(5))
                id = 0, rf = 0;
            int want = -1, any = -1;
            for (size_t i = 0; i < m.size(); i++) {
                if (m[i].id == id && any < 0)
                    any = (int)i;
                if (m[i].id == id && m[i].ref == rf && want < 0)
                    want = (int)i;
            }
            bpak_meta_header *mh = (bpak_meta_header *)1;
            int rc = bpak_get_meta(h, id, rf, &mh);
            CHECK(want < 0 ? (rc == -BPAK_NOT_FOUND) : (rc == BPAK_OK && mh == &h->meta[want]),
                  "get_meta(%x,%x) returned %d entry %ld, expected entry %d", id, rf, rc, rc ? -1 : (long)(mh - h->meta), want);
            mh = (bpak_meta_header *)1;
            rc = bpak_get_meta_anyref(h, id, &mh);
            CHECK(any < 0 ? (rc == -BPAK_NOT_FOUND) : (rc == BPAK_OK && mh == &h->meta[any]),
                  "get_meta_anyref(%x) returned %d entry %ld, expected entry %d", id, rc, rc ? -1 : (long)(mh - h->meta), any);
            break;
        }
        case 3: { // rewrite one entry
            if (m.empty())
                break;
            size_t i = (size_t)g.below(m.size());
            bpak_meta_header *mh = nullptr;
            CHECK(bpak_get_meta(h, m[i].id, m[i].ref, &mh) == BPAK_OK, "entry %zu not found", i);
            uint8_t v = (uint8_t)g.draw(256);
            std::fill(m[i].data.begin(), m[i].data.end(), v);
            memset(bpak_get_meta_ptr(h, mh, uint8_t), v, m[i].size);
            break;
        }
        case 4: { // transport metadata
            uint32_t rf = IDS[g.below(10)], en = (uint32_t)g.draw(1ull << 32), de = (uint32_t)g.draw(1ull << 32);
            bool ex = false;
            for (auto &e : m)
                ex |= e.id == 0x2d44bbfb && e.ref == rf;
            int want = ex ? -BPAK_EXISTS : m.size() == 32 || used(m) + 32 > 1920 ? -BPAK_NO_SPACE_LEFT : BPAK_OK;
            int rc = bpak_add_transport_meta(h, rf, en, de);
            c.log("transport meta ref=%x\n", rf);
            CHECK(rc == want, "add_transport_meta returned %d, expected %d", rc, want);
            if (!rc) {
                Bytes d(32, 0);
                put(d, 0, 4, en);
                put(d, 4, 4, de);
                m.push_back({0x2d44bbfb, rf, 32, d});
            }
            break;
        }
        case 5: { // fill the table or the space
            if (profile != 3)
                break;
            uint32_t id = 0x5000 + (uint32_t)k * 64;
            size_t sz = g.flip() ? 0 : (size_t)g.range(1, 60);
            c.log("fill size=%zu\n", sz);
            for (int i = 0; i < 40; i++) {
                bpak_meta_header *mh = nullptr;
                int want = m.size() == 32 || used(m) + sz > 1920 ? -BPAK_NO_SPACE_LEFT : BPAK_OK;
                int rc = bpak_add_meta(h, id + (uint32_t)i, 0, (uint16_t)sz, &mh);
                CHECK(rc == want, "add_meta returned %d, expected %d", rc, want);
                if (rc) {
                    fulls++;
                    break;
                }
                m.push_back({id + (uint32_t)i, 0, (uint16_t)sz, Bytes(sz, (uint8_t)i)});
                memset(bpak_get_meta_ptr(h, mh, uint8_t), i, sz);
            }
            break;
        }
        default: { // delete runs, as deleting a part with its metadata does
            if (m.empty())
                break;
            uint32_t rf = m[g.below(m.size())].ref;
            c.log("delete all with ref %x\n", rf);
            for (size_t i = 0; i < m.size();) {
                if (m[i].ref == rf) {
                    bpak_del_meta(h, &h->meta[i]);
                    m.erase(m.begin() + (long)i);
                    dels++;
                } else
                    i++;
            }
        }
        }
        Bytes want = base;
        render_meta(want, m);
        must_equal(h, want, "the last operation");
    }
    if (dels && adds >= 3)
        c.nontrivial();
    if (fulls)
        c.label("no space refusals");
    if (dels >= 3)
        c.label("3 or more deletions");
    if (m.size() == 32)
        c.label("full table at the end");
}

struct PEnt {
    uint32_t id;
    uint64_t size, off, tsize;
    uint16_t pad;
    uint8_t flags, p2;
};
static void c06(Case &c)
{
    Gen &g = c.g;
    bpak_package *pkg = (bpak_package *)calloc(1, sizeof *pkg);
    struct F { void *p; ~F() { free(p); } } fr{pkg};
    bpak_header *h = &pkg->header;
    bpak_init_header(h);
    Bytes base = image(h);
    if (g.flip()) {
        Rng r(g.draw(1u << 30));
        for (size_t i = ref::H_META; i < ref::H_PARTS; i++)
            base[i] = (uint8_t)r.next();
        for (size_t i = ref::H_DATA; i < 4096; i++)
            base[i] = (uint8_t)r.next();
        memcpy(h, base.data(), 4096);
    }
    std::vector<PEnt> m;
    size_t nops = (size_t)g.range(1, 90);
    unsigned dels = 0, adds = 0, full = 0;
    bool many = g.flip();
    unsigned addw = (unsigned)g.pick<unsigned>({6, 20});
    for (size_t k = 0; k < nops; k++) {
        switch (g.weighted({addw, 3, 2})) {
        case 0: {
            uint32_t id = many ? (uint32_t)(0x100 + g.below(80)) : IDS[g.below(10)];
            int want = BPAK_OK;
            for (auto &e : m)
                if (e.id == id)
                    want = -BPAK_EXISTS;
            if (!want && m.size() == 32)
                want = -BPAK_NO_SPACE_LEFT;
            bpak_part_header *p = nullptr;
            if (g.chance(4)) {
                c.log("add 0\n");
                CHECK(bpak_add_part(h, 0, &p) != BPAK_OK, "a part with id 0 was added");
                break;
            }
            int rc = bpak_add_part(h, id, &p);
            c.log("add %x -> %d\n", id, rc);
            CHECK(rc == want, "add_part(%x) with %zu parts returned %d, expected %d", id, m.size(), rc, want);
            full += want == -BPAK_NO_SPACE_LEFT;
            if (rc)
                break;
            adds++;
            CHECK(p == &h->parts[m.size()], "add_part returned the wrong slot");
            Bytes img = image(h);
            for (size_t i = 4; i < 32; i++)
                CHECK(img[ref::H_PARTS + 32 * m.size() + i] == 0, "a new part entry is not empty");
            PEnt e;
            e.id = id;
            e.size = g.logsize(1ull << 40);
            e.pad = (uint16_t)(-e.size & 511);
            e.off = g.logsize(1ull << 40);
            e.tsize = g.flip() ? g.logsize(1ull << 40) : 0;
            e.flags = (uint8_t)g.draw(256);
            e.p2 = 0;
            p->size = e.size;
            p->pad_bytes = e.pad;
            p->offset = e.off;
            p->transport_size = e.tsize;
            p->flags = e.flags;
            m.push_back(e);
            break;
        }
        case 1: {
            if (m.empty())
                break;
            size_t i = (size_t)g.below(m.size());
            if (g.chance(20))
                i = m.size() - 1;
            c.log("del #%zu of %zu\n", i, m.size());
            bpak_part_header *p = nullptr;
            CHECK(bpak_get_part(h, m[i].id, &p) == BPAK_OK && p == &h->parts[i], "part %x not found in its place", m[i].id);
            bpak_del_part(h, p);
            m.erase(m.begin() + (long)i);
            dels++;
            break;
        }
        default: {
            uint32_t id = many ? (uint32_t)(0x100 + g.below(80)) : IDS[g.below(10)];
            if (g.chance(5))
                id = 0;
            int want = -1;
            for (size_t i = 0; i < m.size(); i++)
                if (m[i].id == id)
                    want = (int)i;
            bpak_part_header *p = nullptr;
            int rc = bpak_get_part(h, id, &p);
            CHECK(want < 0 ? rc == -BPAK_NOT_FOUND : rc == BPAK_OK && p == &h->parts[want], "get_part(%x) returned %d, expected entry %d", id, rc, want);
        }
        }
        Bytes want = base;
        memset(&want[ref::H_PARTS], 0, 32 * 32);
        uint64_t off = 4096, inst = 0, tot = 4096;
        for (size_t i = 0; i < m.size(); i++) {
            size_t o = ref::H_PARTS + 32 * i;
            const PEnt &e = m[i];
            put(want, o, 4, e.id);
            put(want, o + 4, 8, e.size);
            put(want, o + 12, 8, e.off);
            put(want, o + 20, 8, e.tsize);
            put(want, o + 28, 2, e.pad);
            want[o + 30] = e.flags;
            uint64_t st = e.flags & 2 ? e.tsize : e.size + e.pad;
            CHECK((uint64_t)bpak_part_offset(h, &h->parts[i]) == off, "part %zu is reported at %lld, expected %llu", i,
                  (long long)bpak_part_offset(h, &h->parts[i]), (unsigned long long)off);
            CHECK(bpak_part_size(&h->parts[i]) == st, "part %zu: stored size %zu, expected %llu", i, bpak_part_size(&h->parts[i]), (unsigned long long)st);
            uint64_t wo = e.flags & 2 ? e.tsize : e.size;
            CHECK(bpak_part_size_wo_pad(&h->parts[i]) == wo, "part %zu: size without padding %zu, expected %llu", i,
                  bpak_part_size_wo_pad(&h->parts[i]), (unsigned long long)wo);
            off += st;
            inst += e.size + e.pad;
            tot += wo;
        }
        must_equal(h, want, "the last operation");
        CHECK(bpak_pkg_installed_size(pkg) == inst, "installed size %zu, expected %llu", bpak_pkg_installed_size(pkg), (unsigned long long)inst);
        CHECK(bpak_pkg_size(pkg) == tot, "package size %zu, expected %llu", bpak_pkg_size(pkg), (unsigned long long)tot);
    }
    if (dels && adds >= 3)
        c.nontrivial();
    if (full)
        c.label("refused: 32 parts");
    if (m.size() >= 20)
        c.label("20 or more parts");
}

// ---------------------------------------------------------------- C07
struct Verdict {
    bool magic_bad = false, align_bad = false, meta_bad = false, hash_bad = false, size_bad = false;
    bool any() const { return magic_bad || align_bad || meta_bad || hash_bad || size_bad; }
};
static Verdict judge(const Bytes &f)
{
    Verdict v;
    v.magic_bad = le(f, 0, 4) != 0x42504132;
    unsigned __int128 decoded = 4096, stored = 4096;
    for (size_t i = 0; i < 32; i++) {
        size_t o = ref::H_PARTS + 32 * i;
        if (!le(f, o, 4))
            continue;
        if ((le(f, o + 4, 8) + le(f, o + 28, 2)) % 512)
            v.align_bad = true;
        unsigned __int128 full = (unsigned __int128)le(f, o + 4, 8) + le(f, o + 28, 2);
        decoded += full;
        stored += f[o + 30] & 2 ? (unsigned __int128)le(f, o + 20, 8) : full;
        if (decoded > INT64_MAX || stored > INT64_MAX)
            v.size_bad = true;
    }
    for (size_t i = 0; i < 32; i++) {
        size_t o = ref::H_META + 16 * i;
        if (!le(f, o, 4))
            continue;
        if (le(f, o + 4, 2) + le(f, o + 6, 2) > 1920)
            v.meta_bad = true;
    }
    v.hash_bad = f[ref::H_HASHKIND] == 0;
    return v;
}
static Bytes gen_header(Gen &g, Case &c)
{
    Bytes f(4096, 0);
    put(f, 0, 4, 0x42504132);
    f[ref::H_HASHKIND] = (uint8_t)g.range(1, 3);
    f[ref::H_SIGKIND] = (uint8_t)g.below(5);
    put(f, ref::H_ALIGN, 2, 512);
    size_t np = (size_t)g.below(33), nm = (size_t)g.below(33), off = 0;
    for (size_t i = 0; i < np; i++) {
        size_t o = ref::H_PARTS + 32 * i;
        put(f, o, 4, 1 + g.draw(0xffffffff));
        uint64_t sz = g.logsize(1ull << 34);
        put(f, o + 4, 8, sz);
        put(f, o + 28, 2, -sz & 511);
        f[o + 30] = (uint8_t)g.below(4);
    }
    for (size_t i = 0; i < nm; i++) {
        size_t o = ref::H_META + 16 * i;
        size_t sz = (size_t)g.range(0, 64);
        if (off + sz > 1920)
            break;
        put(f, o, 4, 1 + g.draw(0xffffffff));
        put(f, o + 4, 2, sz);
        put(f, o + 6, 2, off);
        off += al8(sz);
    }
    size_t nmut = (size_t)g.below(4);
    for (size_t k = 0; k < nmut; k++) {
        switch (g.below(7)) {
        case 0: {
            size_t b = (size_t)g.below(32);
            f[b / 8] = (uint8_t)(f[b / 8] ^ (1 << (b % 8)));
            c.log("flip magic bit\n");
            break;
        }
        case 1: {
            size_t o = ref::H_PARTS + 32 * (size_t)g.below(np ? np : 1);
            put(f, o + 28, 2, g.pick<uint64_t>({0, 1, 511, 512, 513, 1024, 65535, 64, 128, 256, 384}));
            c.log("change a padding\n");
            break;
        }
        case 2: {
            size_t o = ref::H_PARTS + 32 * (size_t)g.below(g.flip() && np ? np : 32);
            uint64_t v = g.pick<uint64_t>({0, 1, 511, 512, 513, 1ull << 32, (1ull << 32) + 1, 0x7fffffffffffffffull, 1ull << 62, 1ull << 63, 0x7fffffffffffe000ull,
                                           0x7ffffffffffff000ull, 0x7fffffffffffee00ull, (uint64_t)-1, (uint64_t)-512, (uint64_t)-4096});
            if (g.flip()) {
                put(f, o + 20, 8, v);
                f[o + 30] |= 2;
            } else {
                put(f, o + 4, 8, v);
                if (g.flip())
                    put(f, o + 28, 2, -v & 511);
            }
            c.log("change a size\n");
            break;
        }
        case 3: {
            size_t o = ref::H_META + 16 * (size_t)g.below(nm ? nm : 1);
            uint64_t offv = g.range(0, 1930), szv = g.chance(30) ? 1920 - std::min<uint64_t>(offv, 1920) + g.below(3) : g.range(0, 1930);
            put(f, o, 4, 77);
            put(f, o + 4, 2, szv);
            put(f, o + 6, 2, offv);
            c.log("meta entry %zu bounds %llu+%llu\n", (o - 8) / 16, (unsigned long long)offv, (unsigned long long)szv);
            break;
        }
        case 4: {
            size_t o = ref::H_META + 16 * (size_t)g.below(32);
            put(f, o, 4, 78);
            put(f, o + 4, 2, g.pick<uint64_t>({65535, 1920, 1921, 60000, 0}));
            put(f, o + 6, 2, g.pick<uint64_t>({0, 1, 8, 65535, 5536, 1920, 1921}));
            c.log("meta entry extreme\n");
            break;
        }
        case 5:
            f[ref::H_HASHKIND] = (uint8_t)g.pick<int>({0, 1, 4, 255});
            c.log("hash kind %u\n", f[ref::H_HASHKIND]);
            break;
        default: { // unused slot, also in the middle
            size_t o = g.flip() ? ref::H_PARTS + 32 * (size_t)g.below(32) : ref::H_META + 16 * (size_t)g.below(32);
            put(f, o, 4, 0);
            c.log("clear a slot id\n");
        }
        }
    }
    return f;
}
static void c07_header(Case &c)
{
    Gen &g = c.g;
    Bytes f = gen_header(g, c);
    Verdict v = judge(f);
    bpak_header *h = (bpak_header *)malloc(4096);
    struct F { void *p; ~F() { free(p); } } fr{h};
    memcpy(h, f.data(), 4096);
    int rc = bpak_valid_header(h);
    CHECK(image(h) == f, "validation changed the header");
    CHECK((rc == BPAK_OK) == !v.any(), "header is %s but validation returned %d (%s)", v.any() ? "malformed" : "well formed", rc, bpak_error_string(rc));
    if (rc) {
        bool match = (rc == -BPAK_BAD_MAGIC && v.magic_bad) || (rc == -BPAK_BAD_ALIGNMENT && v.align_bad) ||
                     (rc == -BPAK_SIZE_ERROR && (v.meta_bad || v.size_bad)) || (rc == -BPAK_NOT_SUPPORTED && v.hash_bad);
        CHECK(match, "validation returned %s for a header with magic_bad=%d align_bad=%d meta_bad=%d hash_bad=%d size_bad=%d",
              bpak_error_string(rc), v.magic_bad, v.align_bad, v.meta_bad, v.hash_bad, v.size_bad);
        c.label(std::string("refused: ") + bpak_error_string(rc));
        c.nontrivial();
    } else {
        auto p = ref::parse(f);
        if (p.parts.size() > 1 && p.metas.size() > 1)
            c.nontrivial();
        c.label("accepted");
    }
}
static void c07_open(Case &c)
{
    Gen &g = c.g;
    std::string fn = c.path("a.bpak");
    size_t kind = g.weighted({3, 2, 2, 2, 2, 1});
    Bytes f;
    bool present = true;
    switch (kind) {
    case 0: // header (possibly malformed) and some data
        f = gen_header(g, c);
        {
            Bytes tail = g.content((size_t)g.logsize(3000));
            f.insert(f.end(), tail.begin(), tail.end());
        }
        break;
    case 1: { // truncated archive header
        f = gen_header(g, c);
        f.resize((size_t)g.pick<uint64_t>({1, 4, 8, 4095, 4094, 100, 2000, 3464}));
        break;
    }
    case 2: { // not an archive at all
        f = g.content(1 + (size_t)g.edge_size(9000));
        break;
    }
    case 3: // empty file
        break;
    case 4: // missing
        present = false;
        break;
    default: { // text
        std::string t = "This is not an archive.\n";
        f.assign(t.begin(), t.end());
    }
    }
    if (present && !write_file(fn, f))
        throw Discard{};
    const char *modes[] = {"rb", "rb+", "r+", "wb+", "r", "w+"};
    const char *mode = modes[g.below(6)];
    bool creates = mode[0] == 'w', writable = strchr(mode, '+') != nullptr;
    c.log("kind %zu, %zu bytes, mode %s\n", kind, f.size(), mode);
    c.label(std::string("mode ") + mode + (present ? f.empty() ? " empty" : f.size() < 4096 ? " short" : " header" : " missing"));
    struct bpak_package pkg;
    memset(&pkg, 0xa5, sizeof pkg);
    int rc = bpak_pkg_open(&pkg, fn.c_str(), mode);
    if (creates) {
        CHECK(rc == BPAK_OK, "creating an archive failed with %d", rc);
        CHECK(bpak_pkg_close(&pkg) == BPAK_OK, "close failed");
        Bytes got = slurp(fn), want(4096, 0);
        put(want, 0, 4, 0x42504132);
        want[ref::H_HASHKIND] = 1;
        want[ref::H_SIGKIND] = 2;
        put(want, ref::H_ALIGN, 2, 512);
        Bytes ph = ref::hash(1, {});
        memcpy(&want[ref::H_PHASH], ph.data(), 32);
        CHECK(got == want, "a created archive is not the documented empty archive: %s", diff_desc(got, want).c_str());
        c.nontrivial();
        return;
    }
    if (!present) {
        CHECK(rc != BPAK_OK, "opening a missing file in mode %s succeeded", mode);
        CHECK(!exists(fn), "opening a missing file in mode %s created it", mode);
        return;
    }
    bool ok;
    if (f.size() < 4096)
        ok = f.empty() && writable; // an empty file may become a fresh archive
    else
        ok = !judge(f).any();
    if (f.empty() && writable) {
        if (rc == BPAK_OK) {
            CHECK(bpak_valid_header(&pkg.header) == BPAK_OK, "open succeeded with an invalid header");
            bpak_pkg_close(&pkg);
        }
        return;
    }
    CHECK((rc == BPAK_OK) == ok, "opening a %zu byte file (%s) in mode %s returned %d (%s)", f.size(), ok ? "archive" : "not an archive", mode, rc,
          bpak_error_string(rc));
    if (rc == BPAK_OK) {
        CHECK(memcmp(&pkg.header, f.data(), 4096) == 0, "the loaded header differs from the file");
        CHECK(bpak_pkg_close(&pkg) == BPAK_OK, "close failed");
        CHECK(bpak_pkg_close(&pkg) == BPAK_OK, "second close failed");
    } else {
        // a package that could not be opened can be closed again harmlessly
        bpak_pkg_close(&pkg);
    }
    CHECK(slurp(fn) == f, "opening and closing changed the file: %s", diff_desc(slurp(fn), f).c_str());
    c.nontrivial();
}

static std::vector<Prop> props = {
    {"C05", "history", c05, 360000, 3000000,
     "random histories of 1-60 add/write/look-up/delete/fill operations on a header against a map model, byte image compared after every "
     "operation; non-trivial: at least one deletion and three successful additions", 20},
    {"C06", "history", c06, 300000, 2400000,
     "random histories of 1-90 add/look-up/delete operations on the part table against a list model, byte image, offsets, sizes and totals "
     "compared after every operation; non-trivial: at least one deletion and three additions", 20},
    {"C07", "header", c07_header, 1600000, 12800000,
     "generated headers with 0-3 structural mutations, judged by an independent rule; non-trivial: refused, or accepted with two or more parts and entries", 20},
    {"C07", "open", c07_open, 240000, 1920000,
     "files (archives, truncated archives, foreign, empty, missing) opened in six modes; non-trivial: the file existed or was created", 20},
};
PBT_MAIN(props)
