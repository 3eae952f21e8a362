// Independent reference implementations. Nothing here uses code from /repo.
#pragma once
#include "pbt.hh"

namespace ref {
using pbt::Bytes;

// ------------------------------------------------------------------ SHA-2
static inline uint32_t ror32(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
static inline uint64_t ror64(uint64_t x, int n) { return (x >> n) | (x << (64 - n)); }
static const uint64_t K64[80] = {
    0x428a2f98d728ae22ull, 0x7137449123ef65cdull, 0xb5c0fbcfec4d3b2full, 0xe9b5dba58189dbbcull, 0x3956c25bf348b538ull,
    0x59f111f1b605d019ull, 0x923f82a4af194f9bull, 0xab1c5ed5da6d8118ull, 0xd807aa98a3030242ull, 0x12835b0145706fbeull,
    0x243185be4ee4b28cull, 0x550c7dc3d5ffb4e2ull, 0x72be5d74f27b896full, 0x80deb1fe3b1696b1ull, 0x9bdc06a725c71235ull,
    0xc19bf174cf692694ull, 0xe49b69c19ef14ad2ull, 0xefbe4786384f25e3ull, 0x0fc19dc68b8cd5b5ull, 0x240ca1cc77ac9c65ull,
    0x2de92c6f592b0275ull, 0x4a7484aa6ea6e483ull, 0x5cb0a9dcbd41fbd4ull, 0x76f988da831153b5ull, 0x983e5152ee66dfabull,
    0xa831c66d2db43210ull, 0xb00327c898fb213full, 0xbf597fc7beef0ee4ull, 0xc6e00bf33da88fc2ull, 0xd5a79147930aa725ull,
    0x06ca6351e003826full, 0x142929670a0e6e70ull, 0x27b70a8546d22ffcull, 0x2e1b21385c26c926ull, 0x4d2c6dfc5ac42aedull,
    0x53380d139d95b3dfull, 0x650a73548baf63deull, 0x766a0abb3c77b2a8ull, 0x81c2c92e47edaee6ull, 0x92722c851482353bull,
    0xa2bfe8a14cf10364ull, 0xa81a664bbc423001ull, 0xc24b8b70d0f89791ull, 0xc76c51a30654be30ull, 0xd192e819d6ef5218ull,
    0xd69906245565a910ull, 0xf40e35855771202aull, 0x106aa07032bbd1b8ull, 0x19a4c116b8d2d0c8ull, 0x1e376c085141ab53ull,
    0x2748774cdf8eeb99ull, 0x34b0bcb5e19b48a8ull, 0x391c0cb3c5c95a63ull, 0x4ed8aa4ae3418acbull, 0x5b9cca4f7763e373ull,
    0x682e6ff3d6b2b8a3ull, 0x748f82ee5defb2fcull, 0x78a5636f43172f60ull, 0x84c87814a1f0ab72ull, 0x8cc702081a6439ecull,
    0x90befffa23631e28ull, 0xa4506cebde82bde9ull, 0xbef9a3f7b2c67915ull, 0xc67178f2e372532bull, 0xca273eceea26619cull,
    0xd186b8c721c0c207ull, 0xeada7dd6cde0eb1eull, 0xf57d4f7fee6ed178ull, 0x06f067aa72176fbaull, 0x0a637dc5a2c898a6ull,
    0x113f9804bef90daeull, 0x1b710b35131c471bull, 0x28db77f523047d84ull, 0x32caab7b40c72493ull, 0x3c9ebe0a15c9bebcull,
    0x431d67c49c100d4cull, 0x4cc5d4becb3e42b6ull, 0x597f299cfc657e2aull, 0x5fcb6fab3ad6faecull, 0x6c44198c4a475817ull};

static inline Bytes sha256(const Bytes &in)
{
    uint32_t h[8] = {0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19};
    Bytes m = in;
    m.push_back(0x80);
    while (m.size() % 64 != 56)
        m.push_back(0);
    uint64_t bits = (uint64_t)in.size() * 8;
    for (int i = 7; i >= 0; i--)
        m.push_back((uint8_t)(bits >> (8 * i)));
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; i++)
            w[i] = (uint32_t)m[o + 4 * i] << 24 | (uint32_t)m[o + 4 * i + 1] << 16 | (uint32_t)m[o + 4 * i + 2] << 8 |
                   m[o + 4 * i + 3];
        for (int i = 16; i < 64; i++) {
            uint32_t s0 = ror32(w[i - 15], 7) ^ ror32(w[i - 15], 18) ^ (w[i - 15] >> 3);
            uint32_t s1 = ror32(w[i - 2], 17) ^ ror32(w[i - 2], 19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        uint32_t v[8];
        memcpy(v, h, sizeof v);
        for (int i = 0; i < 64; i++) {
            uint32_t S1 = ror32(v[4], 6) ^ ror32(v[4], 11) ^ ror32(v[4], 25);
            uint32_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            uint32_t t1 = v[7] + S1 + ch + (uint32_t)(K64[i] >> 32) + w[i];
            uint32_t S0 = ror32(v[0], 2) ^ ror32(v[0], 13) ^ ror32(v[0], 22);
            uint32_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            uint32_t t2 = S0 + mj;
            v[7] = v[6];
            v[6] = v[5];
            v[5] = v[4];
            v[4] = v[3] + t1;
            v[3] = v[2];
            v[2] = v[1];
            v[1] = v[0];
            v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++)
            h[i] += v[i];
    }
    Bytes r;
    for (int i = 0; i < 8; i++)
        for (int k = 3; k >= 0; k--)
            r.push_back((uint8_t)(h[i] >> (8 * k)));
    return r;
}
static inline Bytes sha512x(const Bytes &in, bool is384)
{
    uint64_t h[8];
    static const uint64_t h512[8] = {0x6a09e667f3bcc908ull, 0xbb67ae8584caa73bull, 0x3c6ef372fe94f82bull,
                                     0xa54ff53a5f1d36f1ull, 0x510e527fade682d1ull, 0x9b05688c2b3e6c1full,
                                     0x1f83d9abfb41bd6bull, 0x5be0cd19137e2179ull};
    static const uint64_t h384[8] = {0xcbbb9d5dc1059ed8ull, 0x629a292a367cd507ull, 0x9159015a3070dd17ull,
                                     0x152fecd8f70e5939ull, 0x67332667ffc00b31ull, 0x8eb44a8768581511ull,
                                     0xdb0c2e0d64f98fa7ull, 0x47b5481dbefa4fa4ull};
    memcpy(h, is384 ? h384 : h512, sizeof h);
    Bytes m = in;
    m.push_back(0x80);
    while (m.size() % 128 != 112)
        m.push_back(0);
    m.resize(m.size() + 8, 0); // high half of the 128-bit length
    uint64_t bits = (uint64_t)in.size() * 8;
    for (int i = 7; i >= 0; i--)
        m.push_back((uint8_t)(bits >> (8 * i)));
    for (size_t o = 0; o < m.size(); o += 128) {
        uint64_t w[80];
        for (int i = 0; i < 16; i++) {
            w[i] = 0;
            for (int k = 0; k < 8; k++)
                w[i] = w[i] << 8 | m[o + 8 * (size_t)i + (size_t)k];
        }
        for (int i = 16; i < 80; i++) {
            uint64_t s0 = ror64(w[i - 15], 1) ^ ror64(w[i - 15], 8) ^ (w[i - 15] >> 7);
            uint64_t s1 = ror64(w[i - 2], 19) ^ ror64(w[i - 2], 61) ^ (w[i - 2] >> 6);
            w[i] = w[i - 16] + s0 + w[i - 7] + s1;
        }
        uint64_t v[8];
        memcpy(v, h, sizeof v);
        for (int i = 0; i < 80; i++) {
            uint64_t S1 = ror64(v[4], 14) ^ ror64(v[4], 18) ^ ror64(v[4], 41);
            uint64_t ch = (v[4] & v[5]) ^ (~v[4] & v[6]);
            uint64_t t1 = v[7] + S1 + ch + K64[i] + w[i];
            uint64_t S0 = ror64(v[0], 28) ^ ror64(v[0], 34) ^ ror64(v[0], 39);
            uint64_t mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            uint64_t t2 = S0 + mj;
            v[7] = v[6];
            v[6] = v[5];
            v[5] = v[4];
            v[4] = v[3] + t1;
            v[3] = v[2];
            v[2] = v[1];
            v[1] = v[0];
            v[0] = t1 + t2;
        }
        for (int i = 0; i < 8; i++)
            h[i] += v[i];
    }
    Bytes r;
    for (int i = 0; i < (is384 ? 6 : 8); i++)
        for (int k = 7; k >= 0; k--)
            r.push_back((uint8_t)(h[i] >> (8 * k)));
    return r;
}
// put in front of everything that is hashed, for the checks of user supplied hash functions
static inline Bytes &tag()
{
    static Bytes t;
    return t;
}
// hash kinds on disk: 1 sha256, 2 sha384, 3 sha512
static inline Bytes hash(unsigned kind, const Bytes &data)
{
    Bytes tagged;
    if (!tag().empty()) {
        tagged = tag();
        tagged.insert(tagged.end(), data.begin(), data.end());
    }
    const Bytes &in = tag().empty() ? data : tagged;
    if (kind == 1)
        return sha256(in);
    return sha512x(in, kind == 2);
}

// ------------------------------------------------------------------ CRC-32 (bitwise, reflected 0xedb88320, init 0)
static inline uint32_t crc32(uint32_t crc, const void *p, size_t n)
{
    const uint8_t *b = (const uint8_t *)p;
    while (n--) {
        crc ^= *b++;
        for (int k = 0; k < 8; k++)
            crc = (crc >> 1) ^ (0xedb88320u & (0u - (crc & 1)));
    }
    return crc;
}
static inline uint32_t id(const std::string &s) { return crc32(0, s.data(), s.size()); }
static inline uint32_t tree_id(uint32_t part) { return crc32(part, "-hash-tree", 10); }

// ------------------------------------------------------------------ dm-verity tree (sha256, 4096 blocks, salt prepended)
struct Tree {
    Bytes tree;  // levels, top level first
    Bytes root;
};
static inline Tree verity(const Bytes &data, const Bytes &salt)
{
    Tree t;
    auto hb = [&](const Bytes &src, size_t off) {
        Bytes m = salt;
        m.insert(m.end(), src.begin() + (long)off, src.begin() + (long)off + 4096);
        return hash(1, m);
    };
    std::vector<Bytes> levels;
    Bytes cur = data;
    if (data.size() == 4096) { // single block: root is the hash of the block; the tree area is one block with that hash
        Bytes h = hb(data, 0);
        t.root = h;
        t.tree = h;
        t.tree.resize(4096, 0);
        return t;
    }
    for (;;) {
        Bytes lvl;
        for (size_t o = 0; o < cur.size(); o += 4096) {
            Bytes h = hb(cur, o);
            lvl.insert(lvl.end(), h.begin(), h.end());
        }
        while (lvl.size() % 4096)
            lvl.push_back(0);
        levels.push_back(lvl);
        cur = lvl;
        if (lvl.size() == 4096)
            break;
    }
    t.root = hb(cur, 0);
    for (size_t i = levels.size(); i--;)
        t.tree.insert(t.tree.end(), levels[i].begin(), levels[i].end());
    return t;
}
static inline int64_t verity_size(uint64_t len) // -1 when not a multiple of the block size
{
    if (len % 4096)
        return -1;
    uint64_t tot = 0, n = len / 4096;
    for (;;) {
        uint64_t l = (n * 32 + 4095) / 4096;
        tot += l * 4096;
        if (l <= 1)
            break;
        n = l;
    }
    return (int64_t)tot;
}

// ------------------------------------------------------------------ archive format, by byte offset
static inline uint64_t le(const Bytes &b, size_t off, int n)
{
    uint64_t v = 0;
    for (int i = n - 1; i >= 0; i--)
        v = v << 8 | b.at(off + (size_t)i);
    return v;
}
static inline void put(Bytes &b, size_t off, int n, uint64_t v)
{
    for (int i = 0; i < n; i++)
        b.at(off + (size_t)i) = (uint8_t)(v >> (8 * i));
}
enum {
    H_MAGIC = 0,
    H_META = 8,
    H_PARTS = 8 + 32 * 16,
    H_DATA = 8 + 32 * 16 + 32 * 32, // 1544
    H_HASHKIND = H_DATA + 1920,     // 3464
    H_SIGKIND = H_HASHKIND + 1,
    H_ALIGN = H_HASHKIND + 2,
    H_PHASH = H_HASHKIND + 4,
    H_KEYID = H_PHASH + 64,
    H_KSID = H_KEYID + 4,
    H_PAD1 = H_KSID + 4,
    H_SIG = H_PAD1 + 42, // 3582
    H_SIGSZ = H_SIG + 512,
    H_SIZE = 4096
};
static_assert(H_SIGSZ + 2 == H_SIZE, "layout");

struct Meta {
    uint32_t id = 0, ref = 0;
    uint16_t size = 0, off = 0;
    Bytes data;
};
struct Part {
    uint32_t id = 0;
    uint64_t size = 0, off = 0, tsize = 0;
    uint16_t pad = 0;
    uint8_t flags = 0;
    uint64_t stored() const { return flags & 2 ? tsize : size + pad; }
};
struct Header {
    std::vector<Meta> metas;
    std::vector<Part> parts;
    uint8_t hash_kind = 0, sig_kind = 0;
    uint16_t align = 0, sig_sz = 0;
    uint32_t key_id = 0, ks_id = 0;
    Bytes payload_hash, signature;
};
// Parses the first 4096 bytes; all used entries.
static inline Header parse(const Bytes &f)
{
    Header h;
    for (int i = 0; i < 32; i++) {
        size_t o = H_META + 16 * (size_t)i;
        Meta m;
        m.id = (uint32_t)le(f, o, 4);
        if (!m.id)
            continue;
        m.size = (uint16_t)le(f, o + 4, 2);
        m.off = (uint16_t)le(f, o + 6, 2);
        m.ref = (uint32_t)le(f, o + 8, 4);
        if ((unsigned)m.off + m.size <= 1920)
            m.data.assign(f.begin() + H_DATA + m.off, f.begin() + H_DATA + m.off + m.size);
        h.metas.push_back(m);
    }
    for (int i = 0; i < 32; i++) {
        size_t o = H_PARTS + 32 * (size_t)i;
        Part p;
        p.id = (uint32_t)le(f, o, 4);
        if (!p.id)
            continue;
        p.size = le(f, o + 4, 8);
        p.off = le(f, o + 12, 8);
        p.tsize = le(f, o + 20, 8);
        p.pad = (uint16_t)le(f, o + 28, 2);
        p.flags = f[o + 30];
        h.parts.push_back(p);
    }
    h.hash_kind = f[H_HASHKIND];
    h.sig_kind = f[H_SIGKIND];
    h.align = (uint16_t)le(f, H_ALIGN, 2);
    h.payload_hash.assign(f.begin() + H_PHASH, f.begin() + H_PHASH + 64);
    h.key_id = (uint32_t)le(f, H_KEYID, 4);
    h.ks_id = (uint32_t)le(f, H_KSID, 4);
    h.sig_sz = (uint16_t)le(f, H_SIGSZ, 2);
    h.signature.assign(f.begin() + H_SIG, f.begin() + H_SIG + 512);
    return h;
}
static inline Bytes header_digest(const Bytes &f)
{
    Bytes h(f.begin(), f.begin() + H_SIZE);
    std::fill(h.begin() + H_SIG, h.end(), 0);
    return hash(f[H_HASHKIND], h);
}
// payload hash over file contents, by definition
static inline Bytes payload_hash(const Bytes &f)
{
    Header h = parse(f);
    Bytes in;
    uint64_t off = H_SIZE;
    for (auto &p : h.parts) {
        uint64_t n = p.stored();
        if (!(p.flags & 1)) {
            if (off + n > f.size())
                return Bytes();
            in.insert(in.end(), f.begin() + (long)off, f.begin() + (long)(off + n));
        }
        off += n;
    }
    return hash(h.hash_kind, in);
}
static inline size_t hash_len(unsigned kind) { return kind == 1 ? 32 : kind == 2 ? 48 : 64; }

// Error codes (positive constants of the public enum), by documented meaning
} // namespace ref
