// Streaming transport decoding: environment of callbacks, and a driver.
#pragma once
#include "world.hh"
namespace stream {
using namespace pbt;

// ---- streaming decoder environment
struct Stream {
    const Bytes *origin = nullptr; // payload of the origin (header removed)
    off_t origin_off = 0, out_off = 0;
    size_t max_read = (size_t)-1;
    Bytes out;              // payload
    std::vector<bool> have; // written bytes
    Bytes hdr;
    size_t lo = 0, hi = (size_t)-1; // permitted payload range for writes
    size_t limit = 8u << 20;
    std::string bad;
    uint64_t calls = 0, fail_at = 0;
    int fail_kind = 0;
    bool failed = false;
    bool (*inj)(size_t, ssize_t &) = nullptr; // another source of failures
    void note(const std::string &s)
    {
        if (bad.empty())
            bad = s;
    }
    bool inject(size_t len, ssize_t &r)
    {
        if (inj)
            return inj(len, r);
        calls++;
        if (!fail_at || calls != fail_at || !len)
            return false;
        failed = true;
        r = fail_kind == 0 ? -BPAK_READ_ERROR : fail_kind == 1 ? (ssize_t)(len - 1) : 0;
        return true;
    }
};
static ssize_t st_write(off_t o, uint8_t *b, size_t n, void *u)
{
    Stream *s = (Stream *)u;
    ssize_t r;
    if (s->inject(n, r))
        return r;
    if ((ssize_t)n < 0) {
        s->note(strf("write of %zu bytes", n));
        return -1;
    }
    if (!n)
        return 0;
    if (o < s->out_off || (uint64_t)(o - s->out_off) < s->lo || (uint64_t)(o - s->out_off) > s->hi || n > s->hi - (size_t)(o - s->out_off)) {
        if (s->hi != (size_t)-1) {
            s->note(strf("output write of %zu bytes at %lld, the part occupies [%zu,%zu) from %lld", n, (long long)o, s->lo, s->hi, (long long)s->out_off));
            return -1;
        }
        if (o < s->out_off) {
            s->note(strf("output write at %lld before the output offset", (long long)o));
            return -1;
        }
    }
    size_t p = (size_t)(o - s->out_off);
    if (p > s->limit || n > s->limit - p)
        return -BPAK_WRITE_ERROR;
    if (s->out.size() < p + n) {
        s->out.resize(p + n, 0);
        s->have.resize(p + n, false);
    }
    memcpy(&s->out[p], b, n);
    std::fill(s->have.begin() + (long)p, s->have.begin() + (long)(p + n), true);
    return (ssize_t)n;
}
static ssize_t st_read_out(off_t o, uint8_t *b, size_t n, void *u)
{
    Stream *s = (Stream *)u;
    ssize_t r;
    if (s->inject(n, r))
        return r;
    if ((ssize_t)n < 0 || o < s->out_off) {
        s->note(strf("output read of %zu bytes at %lld", n, (long long)o));
        return -1;
    }
    size_t p = (size_t)(o - s->out_off);
    if (p > s->out.size() || n > s->out.size() - p) {
        memset(b, 0xEE, n);
        return -BPAK_READ_ERROR;
    }
    memcpy(b, &s->out[p], n);
    return (ssize_t)n;
}
static ssize_t st_hdr(off_t o, uint8_t *b, size_t n, void *u)
{
    Stream *s = (Stream *)u;
    ssize_t r;
    if (s->inject(n, r))
        return r;
    if (o != 0 || n != 4096) {
        s->note(strf("header write of %zu bytes at %lld", n, (long long)o));
        return -1;
    }
    s->hdr.assign(b, b + n);
    return (ssize_t)n;
}
static ssize_t st_read_org(off_t o, uint8_t *b, size_t n, void *u)
{
    Stream *s = (Stream *)u;
    ssize_t r;
    if ((ssize_t)n < 0 || n > s->max_read) {
        s->note(strf("origin read of %zu bytes", n));
        return -1;
    }
    if (s->inject(n, r))
        return r;
    if (!n)
        return 0;
    if (o < s->origin_off) {
        s->note(strf("origin read at offset %lld before the origin's start %lld", (long long)o, (long long)s->origin_off));
        return -1;
    }
    uint64_t p = (uint64_t)(o - s->origin_off);
    if (p > s->origin->size() || n > s->origin->size() - p) {
        memset(b, 0xEE, n);
        return -BPAK_READ_ERROR;
    }
    memcpy(b, s->origin->data() + p, n);
    return (ssize_t)n;
}
static Bytes payload(const Bytes &f) { return Bytes(f.begin() + std::min<long>(4096, (long)f.size()), f.end()); }

// decodes a transport file by streaming; ranges: check that writes stay inside each part
static int stream_decode(const Bytes &enc, const Bytes *org, Stream &s, size_t buflen, Gen *cutter, bool ranges, bool *all_exact = nullptr)
{
    bpak_header ph, oh;
    memcpy(&ph, enc.data(), 4096);
    Bytes opay;
    if (org) {
        memcpy(&oh, org->data(), 4096);
        opay = payload(*org);
        s.origin = &opay;
    }
    auto ctx = std::make_unique<bpak_transport_decode>();
    memset(ctx.get(), 0x5c, sizeof *ctx);
    delta::Exact buf(buflen);
    s.max_read = buflen / 2;
    int rc = bpak_transport_decode_init(ctx.get(), buf.p, buflen, &ph, st_write, st_read_out, s.out_off, st_hdr, &s);
    if (rc)
        return rc;
    if (org) {
        rc = bpak_transport_decode_set_origin(ctx.get(), &oh, st_read_org, s.origin_off);
        if (rc) {
            bpak_transport_decode_free(ctx.get());
            return rc;
        }
    }
    size_t pos = 4096, dpos = 0;
    for (int i = 0; i < BPAK_MAX_PARTS && !rc; i++) {
        bpak_part_header *p = &ph.parts[i];
        if (!p->id)
            break;
        size_t sz = (size_t)p->size + p->pad_bytes;
        if (ranges) {
            s.lo = dpos;
            s.hi = sz > (size_t)1 << 60 ? (size_t)-2 : dpos + sz;
        }
        size_t n = bpak_part_size(p);
        rc = bpak_transport_decode_start(ctx.get(), p);
        if (rc)
            break;
        if (pos > enc.size() || n > enc.size() - pos) { // the stream ends early
            rc = -BPAK_READ_ERROR;
            break;
        }
        std::vector<size_t> ch = cutter ? delta::cuts(*cutter, n) : std::vector<size_t>{n};
        bool tree = n == 0; // nothing to write for regenerated parts
        for (size_t k : ch) {
            if (tree)
                break;
            delta::Exact piece(Bytes(enc.begin() + (long)pos, enc.begin() + (long)(pos + k)));
            rc = bpak_transport_decode_write_chunk(ctx.get(), piece.p, k);
            if (rc)
                break;
            pos += k;
        }
        if (rc)
            break;
        rc = bpak_transport_decode_finish(ctx.get());
        if (!rc && all_exact) {
            bool full = s.out.size() >= dpos + sz || sz == 0;
            for (size_t k = dpos; full && k < dpos + sz; k++)
                full = s.have[k];
            if (!full)
                *all_exact = false;
        }
        dpos += sz;
    }
    bpak_transport_decode_free(ctx.get());
    s.origin = nullptr;
    return rc;
}

} // namespace stream
