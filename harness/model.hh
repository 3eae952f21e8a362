// Archive model: what an archive is supposed to contain, and the exact file it must look like.
#pragma once
#include "pbt.hh"
#include "ref.hh"

namespace model {
using pbt::Bytes;
using ref::put;

static const uint32_t ID_SALT = 0x7c9b2f93, ID_ROOT = 0xe68fc9be, ID_TRANSPORT = 0x2d44bbfb, ID_PACKAGE = 0xfb2f1f3f,
                      ID_KEYSTORE_PROVIDER = 0xfb367d9a;

struct MMeta {
    uint32_t id, ref;
    Bytes data;
};
struct MPart {
    uint32_t id;
    uint64_t size;   // decoded size without padding
    uint16_t pad;
    uint8_t flags;   // 1 excluded, 2 transport encoded
    Bytes stored;    // bytes in the file (padded, or encoded)
    Bytes data() const { return flags & 2 ? stored : Bytes(stored.begin(), stored.begin() + (long)size); }
};
static inline size_t al8(size_t n) { return (n + 7) & ~(size_t)7; }

struct Arc {
    std::vector<MMeta> metas;
    std::vector<MPart> parts;
    uint8_t hash_kind = 1, sig_kind = 2;
    uint16_t align = 512;
    uint32_t key_id = 0, ks_id = 0;
    Bytes phash = Bytes(64, 0); // as stored
    Bytes sig;
    bool stale_tail = false; // payload hash tail left by a longer hash kind

    size_t meta_used() const
    {
        size_t n = 0;
        for (auto &m : metas)
            n += al8(m.data.size());
        return n;
    }
    bool meta_fits(size_t sz) const { return metas.size() < 32 && meta_used() + sz <= 1920; }
    int find(uint32_t id) const
    {
        for (size_t i = 0; i < parts.size(); i++)
            if (parts[i].id == id)
                return (int)i;
        return -1;
    }
    int find_meta(uint32_t id, uint32_t ref) const
    {
        for (size_t i = 0; i < metas.size(); i++)
            if (metas[i].id == id && metas[i].ref == ref)
                return (int)i;
        return -1;
    }
    void add(uint32_t id, const Bytes &d, uint8_t flags)
    {
        MPart p;
        p.id = id;
        p.size = d.size();
        p.pad = (uint16_t)(-d.size() & 511);
        p.flags = flags;
        p.stored = d;
        p.stored.resize(d.size() + p.pad, 0);
        parts.push_back(p);
    }
    void add_encoded(uint32_t id, uint64_t size, const Bytes &enc, uint8_t flags)
    {
        MPart p;
        p.id = id;
        p.size = size;
        p.pad = (uint16_t)(-size & 511);
        p.flags = (uint8_t)(flags | 2);
        p.stored = enc;
        parts.push_back(p);
    }
    void add_meta(uint32_t id, uint32_t ref, const Bytes &d) { metas.push_back({id, ref, d}); }
    void add_transport(uint32_t part, uint32_t enc, uint32_t dec)
    {
        Bytes d(32, 0);
        put(d, 0, 4, enc);
        put(d, 4, 4, dec);
        add_meta(ID_TRANSPORT, part, d);
    }
    // file + tree + salt + root, as the reference defines them
    void add_with_tree(uint32_t id, const Bytes &d, const Bytes &salt, uint8_t flags)
    {
        ref::Tree t = ref::verity(d, salt);
        add(id, d, flags);
        Bytes s = salt;
        s.resize(32, 0);
        add_meta(ID_SALT, id, s);
        add_meta(ID_ROOT, id, t.root);
        add(ref::tree_id(id), t.tree, flags);
    }
    void update_hash()
    {
        Bytes in;
        for (auto &p : parts)
            if (!(p.flags & 1))
                in.insert(in.end(), p.stored.begin(), p.stored.end());
        Bytes h = ref::hash(hash_kind, in);
        memcpy(phash.data(), h.data(), h.size());
    }
    Bytes header() const
    {
        Bytes f(4096, 0);
        put(f, 0, 4, 0x42504132);
        size_t off = 0;
        for (size_t i = 0; i < metas.size(); i++) {
            size_t o = ref::H_META + 16 * i;
            put(f, o, 4, metas[i].id);
            put(f, o + 4, 2, metas[i].data.size());
            put(f, o + 6, 2, off);
            put(f, o + 8, 4, metas[i].ref);
            std::copy(metas[i].data.begin(), metas[i].data.end(), f.begin() + ref::H_DATA + (long)off);
            off += al8(metas[i].data.size());
        }
        uint64_t doff = 4096;
        for (size_t i = 0; i < parts.size(); i++) {
            size_t o = ref::H_PARTS + 32 * i;
            const MPart &p = parts[i];
            put(f, o, 4, p.id);
            put(f, o + 4, 8, p.size);
            put(f, o + 12, 8, doff);
            put(f, o + 20, 8, p.flags & 2 ? p.stored.size() : 0);
            put(f, o + 28, 2, p.pad);
            f[o + 30] = p.flags;
            doff += p.size + p.pad;
        }
        f[ref::H_HASHKIND] = hash_kind;
        f[ref::H_SIGKIND] = sig_kind;
        put(f, ref::H_ALIGN, 2, align);
        memcpy(&f[ref::H_PHASH], phash.data(), 64);
        put(f, ref::H_KEYID, 4, key_id);
        put(f, ref::H_KSID, 4, ks_id);
        std::copy(sig.begin(), sig.end(), f.begin() + ref::H_SIG);
        put(f, ref::H_SIGSZ, 2, sig.size());
        return f;
    }
    Bytes build() const
    {
        Bytes f = header();
        for (auto &p : parts)
            f.insert(f.end(), p.stored.begin(), p.stored.end());
        return f;
    }
    // metadata entries of a deleted part
    void drop_meta_of(uint32_t ref)
    {
        for (size_t i = 0; i < metas.size();)
            if (metas[i].ref == ref)
                metas.erase(metas.begin() + (long)i);
            else
                i++;
    }
};
static inline const char *area(size_t i)
{
    return i < ref::H_META ? "magic" : i < ref::H_PARTS ? "metadata headers" : i < ref::H_DATA ? "part table"
         : i < ref::H_HASHKIND ? "metadata bytes" : i < ref::H_PHASH ? "kinds/alignment" : i < ref::H_KEYID ? "payload hash"
         : i < ref::H_PAD1 ? "key ids" : i < ref::H_SIG ? "reserved bytes" : i < 4096 ? "signature" : "part data";
}
static inline std::string cmp(const Bytes &got, const Bytes &want)
{
    size_t i = pbt::first_diff(got, want);
    return pbt::strf("sizes %zu (expected %zu), first difference at byte %zu (%s): %s expected %s", got.size(), want.size(), i, area(i),
                     i < got.size() ? pbt::hexs(&got[i], std::min<size_t>(8, got.size() - i)).c_str() : "end of file",
                     i < want.size() ? pbt::hexs(&want[i], std::min<size_t>(8, want.size() - i)).c_str() : "end of file");
}

static inline std::string keydir()
{
    const char *d = getenv("BPAK_HARNESS_DIR");
    return std::string(d ? d : "/verif/harness") + "/keys/";
}
// 1: every part with a root hash has its hash tree, 0: some has not, -1: coded parts are involved
static inline int tree_state(const Bytes &f)
{
    ref::Header h = ref::parse(f);
    std::map<uint32_t, std::pair<ref::Part, Bytes>> d;
    size_t off = 4096;
    for (auto &p : h.parts) {
        size_t n = (size_t)p.stored();
        d[p.id] = {p, Bytes(f.begin() + (long)off, f.begin() + (long)(off + n))};
        off += n;
    }
    for (auto &m : h.metas) {
        if (m.id != ID_ROOT || !d.count(m.ref))
            continue;
        auto &p = d[m.ref];
        const Bytes *salt = nullptr;
        for (auto &s : h.metas)
            if (s.id == ID_SALT && s.ref == m.ref) {
                salt = &s.data;
                break;
            }
        if (!salt || !d.count(ref::tree_id(m.ref)))
            return 0;
        auto &tr = d[ref::tree_id(m.ref)];
        if ((p.first.flags | tr.first.flags) & 2 || m.data.size() != 32 || salt->size() != 32 || p.second.empty() || p.second.size() % 4096)
            return -1;
        ref::Tree want = ref::verity(p.second, *salt);
        if (tr.second.size() < want.tree.size())
            return -1;
        if (p.second.size() == 4096 && want.root == m.data && std::equal(want.root.begin(), want.root.end(), tr.second.begin()) &&
            !std::equal(want.tree.begin(), want.tree.end(), tr.second.begin()))
            return -1; // the filler after the hash of a single block belongs to no hash
        if (want.root != m.data || !std::equal(want.tree.begin(), want.tree.end(), tr.second.begin()))
            return 0;
    }
    return 1;
}

} // namespace model
