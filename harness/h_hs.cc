// C18 the embedded compressor round-trips, C19 the embedded decompressor is total.
#include "delta.hh"
extern "C" {
#include <bpak/heatshrink_decoder.h>
}
// both headers define the same version macros
#undef HEATSHRINK_VERSION_MAJOR
#undef HEATSHRINK_VERSION_MINOR
#undef HEATSHRINK_VERSION_PATCH
#undef HEATSHRINK_MIN_WINDOW_BITS
#undef HEATSHRINK_MAX_WINDOW_BITS
#undef HEATSHRINK_MIN_LOOKAHEAD_BITS
#undef HEATSHRINK_LITERAL_MARKER
#undef HEATSHRINK_BACKREF_MARKER
#undef HEATSHRINK_STATIC_INPUT_BUFFER_SIZE
#undef HEATSHRINK_STATIC_WINDOW_BITS
#undef HEATSHRINK_STATIC_LOOKAHEAD_BITS
#undef HEATSHRINK_USE_INDEX
extern "C" {
#include <heatshrink/heatshrink_encoder.h>
}
using namespace pbt;

// A schedule decides the sizes of the pieces on both sides
struct Sched {
    Gen *g = nullptr; // null: whole input, big output
    unsigned in_kind = 0, out_kind = 0;
    Rng r{0};
    void draw(Gen &gg)
    {
        g = &gg;
        in_kind = (unsigned)gg.below(5);
        out_kind = (unsigned)gg.below(5);
        r = Rng(gg.draw(1u << 30));
    }
    size_t sz(unsigned kind, size_t big)
    {
        switch (kind) {
        case 0: return big;
        case 1: return 1;
        case 2: return 1 + r.next() % 5;
        case 3: return 1 + r.next() % 300;
        default: return r.next() % 3 ? r.next() % 40 : 250 + r.next() % 20; // may be zero
        }
    }
    size_t in(size_t left) { return std::min(left, g ? sz(in_kind, left) : left); }
    size_t out() { return g ? sz(out_kind, 4096) : 4096; }
    std::string desc() const { return g ? strf("in %u out %u", in_kind, out_kind) : "canonical"; }
};

struct Enc {
    heatshrink_encoder *e = (heatshrink_encoder *)malloc(sizeof *e);
    Enc() { memset(e, 0xA5, sizeof *e); heatshrink_encoder_reset(e); }
    ~Enc() { free(e); }
};
struct Dec {
    heatshrink_decoder *d = (heatshrink_decoder *)malloc(sizeof *d);
    Dec() { memset(d, 0xA5, sizeof *d); heatshrink_decoder_reset(d); }
    ~Dec() { free(d); }
};

// polls until EMPTY
static void enc_drain(Enc &e, Sched &s, Bytes &out, size_t cap)
{
    for (size_t zero = 0;;) {
        size_t n = s.out();
        if (n == 0) {
            uint8_t b = 0x77;
            size_t got = 12345;
            HSE_poll_res pr = heatshrink_encoder_poll(e.e, &b, 0, &got);
            CHECK(pr == HSER_POLL_ERROR_MISUSE && b == 0x77, "poll into an empty buffer returned %d", pr);
            n = 1;
        }
        delta::Exact b(n);
        size_t got = (size_t)-1;
        HSE_poll_res pr = heatshrink_encoder_poll(e.e, b.p, n, &got);
        CHECK(pr == HSER_POLL_EMPTY || pr == HSER_POLL_MORE, "encoder poll returned %d", pr);
        CHECK(got <= n, "encoder claims %zu bytes of output in a buffer of %zu", got, n);
        out.insert(out.end(), b.p, b.p + got);
        for (size_t i = got; i < n; i++)
            CHECK(b.p[i] == 0xA5, "encoder wrote behind its output");
        CHECK(out.size() <= cap, "encoder produced %zu bytes, at most %zu expected", out.size(), cap);
        if (pr == HSER_POLL_EMPTY)
            return;
        CHECK(got == n, "encoder wants more polling but left %zu of %zu bytes unused", n - got, n);
        zero = got ? 0 : zero + 1;
        CHECK(zero < 3, "encoder makes no progress");
    }
}
static Bytes hs_encode(Enc &e, const Bytes &in, Sched &s)
{
    Bytes out;
    size_t cap = in.size() + in.size() / 8 + 2, pos = 0;
    int stuck = 0;
    bool drained = true;
    while (pos < in.size()) {
        size_t n = s.in(in.size() - pos), took = (size_t)-1;
        delta::Exact b(Bytes(in.begin() + (long)pos, in.begin() + (long)(pos + n)));
        HSE_sink_res sr = heatshrink_encoder_sink(e.e, b.p, n, &took);
        if (sr == HSER_SINK_ERROR_MISUSE && !drained) { // full
            enc_drain(e, s, out, cap);
            drained = true;
            continue;
        }
        CHECK(sr == HSER_SINK_OK, "sink into a drained encoder returned %d", sr);
        CHECK(took <= n, "encoder took %zu of %zu bytes", took, n);
        pos += took;
        stuck = took || !n ? 0 : stuck + 1;
        CHECK(stuck < 2, "drained encoder takes no input");
        drained = false;
        if (n == took && s.g && s.r.next() % 3 == 0)
            continue; // several sinks before a poll are fine while there is room
        enc_drain(e, s, out, cap);
        drained = true;
    }
    // input left over from several sinks without a poll
    HSE_finish_res fr;
    for (int i = 0; (fr = heatshrink_encoder_finish(e.e)) == HSER_FINISH_MORE; i++) {
        CHECK(i < 4, "encoder asks for polling again and again at the end");
        enc_drain(e, s, out, cap);
    }
    CHECK(fr == HSER_FINISH_DONE, "finish returned %d", fr);
    size_t len = out.size();
    enc_drain(e, s, out, cap);
    CHECK(out.size() == len, "encoder produced output after reporting completion");
    uint8_t x = 1;
    size_t took = 0;
    CHECK(heatshrink_encoder_sink(e.e, &x, 1, &took) == HSER_SINK_ERROR_MISUSE, "finished encoder takes input");
    CHECK(heatshrink_encoder_finish(e.e) == HSER_FINISH_DONE, "completion is not stable");
    return out;
}
// poll until EMPTY. Returns false when the limit is reached
static bool dec_drain(Dec &d, Sched &s, Bytes &out, size_t limit)
{
    for (int zero = 0;;) {
        size_t n = s.out();
        if (n == 0) { // allowed, yields nothing
            uint8_t b = 0x77;
            size_t got = 12345;
            HSD_poll_res pr = heatshrink_decoder_poll(d.d, &b, 0, &got);
            CHECK(got == 0 && b == 0x77 && pr >= 0, "poll into an empty buffer: %d, %zu bytes", pr, got);
            n = 1;
        }
        delta::Exact b(n);
        size_t got = (size_t)-1;
        HSD_poll_res pr = heatshrink_decoder_poll(d.d, b.p, n, &got);
        CHECK(pr == HSDR_POLL_EMPTY || pr == HSDR_POLL_MORE, "decoder poll returned %d", pr);
        CHECK(got <= n, "decoder claims %zu bytes of output in a buffer of %zu", got, n);
        for (size_t i = got; i < n; i++)
            CHECK(b.p[i] == 0xA5, "decoder wrote behind its output");
        out.insert(out.end(), b.p, b.p + got);
        if (pr == HSDR_POLL_EMPTY)
            return true;
        CHECK(got == n, "decoder wants more polling but left %zu of %zu bytes unused", n - got, n);
        zero = got ? 0 : zero + 1;
        CHECK(zero < 3, "decoder makes no progress");
        CHECK(out.size() <= limit, "decoder produced %zu bytes, at most %zu expected", out.size(), limit);
    }
}
static Bytes hs_decode_impl(Dec &d, const Bytes &in, Sched &s, size_t limit)
{
    Bytes out;
    size_t pos = 0;
    int full = 0;
    while (pos < in.size()) {
        size_t n = s.in(in.size() - pos), took = (size_t)-1;
        delta::Exact b(Bytes(in.begin() + (long)pos, in.begin() + (long)(pos + n)));
        HSD_sink_res sr = heatshrink_decoder_sink(d.d, b.p, n, &took);
        CHECK(sr == HSDR_SINK_OK || sr == HSDR_SINK_FULL, "sink returned %d", sr);
        CHECK(took <= n, "decoder took %zu of %zu bytes", took, n);
        CHECK(sr == HSDR_SINK_OK || took == 0, "full decoder took %zu bytes", took);
        CHECK(b.same(Bytes(in.begin() + (long)pos, in.begin() + (long)(pos + n))), "decoder changed its input");
        pos += took;
        full = took || !n ? 0 : full + 1;
        CHECK(full < 2, "drained decoder takes no input");
        if (sr == HSDR_SINK_OK && took == n && s.g && s.r.next() % 3 == 0)
            continue;
        if (took == n && s.g && s.r.next() % 4 == 0 && out.size() < limit) { // leave output pending, sink again
            size_t k = 1 + s.r.next() % 8, got = 0;
            delta::Exact o(k);
            HSD_poll_res pr = heatshrink_decoder_poll(d.d, o.p, k, &got);
            CHECK(got <= k && pr >= 0, "poll: %d, %zu of %zu", pr, got, k);
            out.insert(out.end(), o.p, o.p + got);
            if (pr == HSDR_POLL_MORE && pos < in.size()) {
                size_t m = s.in(in.size() - pos);
                delta::Exact b2(Bytes(in.begin() + (long)pos, in.begin() + (long)(pos + m)));
                sr = heatshrink_decoder_sink(d.d, b2.p, m, &took);
                CHECK(sr == HSDR_SINK_OK || (sr == HSDR_SINK_FULL && took == 0), "sink returned %d, took %zu", sr, took);
                CHECK(took <= m, "decoder took %zu of %zu bytes", took, m);
                pos += took;
            }
        }
        dec_drain(d, s, out, limit);
    }
    HSD_finish_res fr;
    for (int i = 0; (fr = heatshrink_decoder_finish(d.d)) == HSDR_FINISH_MORE; i++) {
        CHECK(i < 4, "decoder asks for polling again and again at the end");
        dec_drain(d, s, out, limit);
    }
    CHECK(fr == HSDR_FINISH_DONE, "finish returned %d", fr);
    size_t len = out.size();
    dec_drain(d, s, out, limit);
    CHECK(out.size() == len, "decoder produced output after reporting completion");
    return out;
}
static Bytes gen_data(Case &c, Gen &g)
{
    static const size_t edges[] = {0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 383, 384, 385, 511, 512, 513, 640, 768};
    size_t n = g.flip() ? (size_t)g.logsize(c.thorough ? 60000 : 6000) : edges[g.below(18)];
    Bytes d;
    switch (g.weighted({4, 3, 2})) {
    case 0: d = g.content(n); break;
    case 1: { // copies from any distance, with any length, around the window and lookahead limits
        Rng r(g.draw(1u << 30));
        while (d.size() < n) {
            if (r.next() % 3 == 0 || d.empty()) {
                for (size_t k = 1 + r.next() % 12; k; k--)
                    d.push_back(r.next() % 4 ? (uint8_t)r.next() : 0);
            } else {
                static const size_t dist[] = {1, 2, 127, 128, 129, 254, 255, 256, 257, 258}, len[] = {1, 2, 3, 4, 126, 127, 128, 129, 130, 256};
                size_t o = r.next() % 2 ? dist[r.next() % 10] : 1 + r.next() % 300;
                size_t l = r.next() % 2 ? len[r.next() % 10] : 1 + r.next() % 200;
                for (; l; l--)
                    d.push_back(o <= d.size() ? d[d.size() - o] : 0);
            }
        }
        d.resize(n);
        break;
    }
    default: { // zeros with rare other bytes
        Rng r(g.draw(1u << 30));
        d.assign(n, 0);
        for (size_t k = n / 100 + (n ? 1 : 0); k; k--)
            d[r.next() % n] = (uint8_t)r.next();
    }
    }
    return d;
}
static void round_trip(Case &c)
{
    Gen &g = c.g;
    Bytes in = gen_data(c, g);
    Sched canon, s;
    s.draw(g);
    c.log("%zu bytes, encoder %s", in.size(), s.desc().c_str());
    Enc ce;
    Bytes want = hs_encode(ce, in, canon);
    Enc e;
    if (g.chance(40)) { // leftovers of an earlier stream
        Bytes junk = g.content(1 + (size_t)g.below(900));
        size_t took = 0;
        Bytes o;
        heatshrink_encoder_sink(e.e, junk.data(), junk.size(), &took);
        if (g.flip())
            enc_drain(e, s, o, 4096);
        if (g.flip())
            heatshrink_encoder_finish(e.e);
        Bytes ob(1 + (size_t)g.below(30));
        heatshrink_encoder_poll(e.e, ob.data(), ob.size(), &took);
        heatshrink_encoder_reset(e.e);
        c.label("encoder reused");
    }
    Bytes enc = hs_encode(e, in, s);
    CHECK(enc == want, "the schedule changes the compressed stream: %s", diff_desc(enc, want).c_str());
    CHECK(enc.size() <= (in.size() * 9 + 7) / 8, "%zu bytes became %zu", in.size(), enc.size());
    Bytes r = delta::hs_decode(enc);
    r.resize(std::max(r.size(), in.size()));
    CHECK(delta::hs_decode(enc) == in, "compressed stream decodes to other data: %s", diff_desc(delta::hs_decode(enc), in).c_str());
    Dec d;
    Sched ds;
    ds.draw(g);
    if (g.chance(40)) {
        Bytes junk = g.content(1 + (size_t)g.below(300));
        size_t took = 0;
        heatshrink_decoder_sink(d.d, junk.data(), junk.size(), &took);
        Bytes ob(1 + (size_t)g.below(500));
        heatshrink_decoder_poll(d.d, ob.data(), ob.size(), &took);
        heatshrink_decoder_reset(d.d);
        c.label("decoder reused");
    }
    c.log("\ndecoder %s\n", ds.desc().c_str());
    Bytes dec = hs_decode_impl(d, enc, ds, in.size() + 8);
    CHECK(dec == in, "round trip: %s", diff_desc(dec, in).c_str());
    if (enc.size() < in.size())
        c.label("compressed");
    if (in.size() > 128)
        c.nontrivial();
}
// encoder and decoder coupled directly, pieces of any size going through both
static void coupled(Case &c)
{
    Gen &g = c.g;
    Bytes in = gen_data(c, g);
    Sched s;
    s.draw(g);
    Enc e;
    Dec d;
    Bytes out, pend;
    size_t pos = 0;
    bool fin = false, done = false;
    uint64_t steps = 0;
    Rng r(g.draw(1u << 30));
    c.log("%zu bytes, %s", in.size(), s.desc().c_str());
    while (!done || !pend.empty()) {
        CHECK(++steps < 40 * (uint64_t)in.size() + 4000, "no completion after %llu steps, %zu of %zu bytes in, %zu out", (unsigned long long)steps, pos, in.size(), out.size());
        if (!fin && pos < in.size()) {
            size_t n = std::max<size_t>(1, s.in(in.size() - pos)), took = 0;
            Bytes b(in.begin() + (long)pos, in.begin() + (long)(pos + std::min(n, in.size() - pos)));
            HSE_sink_res sr = heatshrink_encoder_sink(e.e, b.data(), b.size(), &took);
            CHECK(sr == HSER_SINK_OK || sr == HSER_SINK_ERROR_MISUSE, "sink returned %d", sr);
            if (sr == HSER_SINK_OK)
                pos += took;
        } else if (!done) {
            fin = true;
            HSE_finish_res fr = heatshrink_encoder_finish(e.e);
            CHECK(fr == HSER_FINISH_DONE || fr == HSER_FINISH_MORE, "finish returned %d", fr);
            done = fr == HSER_FINISH_DONE;
        }
        if (r.next() % 4) { // one poll, possibly leaving output behind
            size_t n = std::max<size_t>(1, s.out()), got = 0;
            delta::Exact b(n);
            HSE_poll_res pr = heatshrink_encoder_poll(e.e, b.p, n, &got);
            CHECK(pr >= 0 && got <= n, "poll %d, %zu of %zu", pr, got, n);
            CHECK(!done || got == 0, "output after completion");
            pend.insert(pend.end(), b.p, b.p + got);
        }
        if (r.next() % 4 && !pend.empty()) {
            size_t n = 1 + r.next() % pend.size(), took = 0;
            HSD_sink_res sr = heatshrink_decoder_sink(d.d, pend.data(), n, &took);
            CHECK(sr >= 0 && took <= n, "decoder sink %d, %zu of %zu", sr, took, n);
            pend.erase(pend.begin(), pend.begin() + (long)took);
        }
        if (r.next() % 4) {
            size_t n = s.out(), got = 0;
            delta::Exact b(n);
            HSD_poll_res pr = heatshrink_decoder_poll(d.d, b.p, n, &got);
            CHECK(pr >= 0 && got <= n, "decoder poll %d, %zu of %zu", pr, got, n);
            out.insert(out.end(), b.p, b.p + got);
        }
        CHECK(out.size() <= in.size() && !memcmp(out.data(), in.data(), out.size()), "decoded data differ at %zu", first_diff(out, in));
    }
    HSD_finish_res fr;
    for (int i = 0; (fr = heatshrink_decoder_finish(d.d)) == HSDR_FINISH_MORE; i++) {
        CHECK(i < 4, "decoder wants polling again and again at the end");
        Sched canon;
        dec_drain(d, canon, out, in.size() + 8);
    }
    CHECK(out == in, "decoded data: %s", diff_desc(out, in).c_str());
    if (in.size() > 128)
        c.nontrivial();
}
// a stream that is compressed must be compressed where it can be: runs cost little
static void runs(Case &c)
{
    Gen &g = c.g;
    size_t n = (size_t)g.range(1, c.thorough ? 100000 : 20000), per = (size_t)g.range(1, 256);
    Bytes in(n);
    Rng r(g.draw(1u << 30));
    for (size_t i = 0; i < n; i++)
        in[i] = i < per ? (uint8_t)r.next() : in[i - per];
    Enc e;
    Sched s;
    s.draw(g);
    c.log("%zu bytes with period %zu, %s", n, per, s.desc().c_str());
    Bytes enc = hs_encode(e, in, s);
    Dec d;
    Sched canon;
    CHECK(hs_decode_impl(d, enc, canon, n + 8) == in, "round trip");
    // the first period literally (9 bits a byte), then 16 bits per 128 bytes, three bytes of slack
    size_t bound = (std::min(per, n) * 9 + (n > per ? (n - per + 127) / 128 * 16 : 0)) / 8 + 12;
    CHECK(enc.size() <= bound, "%zu periodic bytes take %zu, expected at most %zu", n, enc.size(), bound);
    if (n > per + 128)
        c.nontrivial();
}
static void misuse(Case &c)
{
    Gen &g = c.g;
    Enc e;
    Dec d;
    uint8_t b[600];
    memset(b, 3, sizeof b);
    size_t n = 0;
    CHECK(heatshrink_encoder_sink(nullptr, b, 1, &n) == HSER_SINK_ERROR_NULL && heatshrink_encoder_sink(e.e, nullptr, 1, &n) == HSER_SINK_ERROR_NULL &&
          heatshrink_encoder_sink(e.e, b, 1, nullptr) == HSER_SINK_ERROR_NULL, "NULL accepted by the encoder sink");
    CHECK(heatshrink_encoder_poll(nullptr, b, 1, &n) == HSER_POLL_ERROR_NULL && heatshrink_encoder_poll(e.e, nullptr, 1, &n) == HSER_POLL_ERROR_NULL &&
          heatshrink_encoder_poll(e.e, b, 1, nullptr) == HSER_POLL_ERROR_NULL && heatshrink_encoder_finish(nullptr) == HSER_FINISH_ERROR_NULL, "NULL accepted by the encoder");
    CHECK(heatshrink_decoder_sink(nullptr, b, 1, &n) == HSDR_SINK_ERROR_NULL && heatshrink_decoder_sink(d.d, nullptr, 1, &n) == HSDR_SINK_ERROR_NULL &&
          heatshrink_decoder_sink(d.d, b, 1, nullptr) == HSDR_SINK_ERROR_NULL, "NULL accepted by the decoder sink");
    CHECK(heatshrink_decoder_poll(nullptr, b, 1, &n) == HSDR_POLL_ERROR_NULL && heatshrink_decoder_poll(d.d, nullptr, 1, &n) == HSDR_POLL_ERROR_NULL &&
          heatshrink_decoder_poll(d.d, b, 1, nullptr) == HSDR_POLL_ERROR_NULL && heatshrink_decoder_finish(nullptr) == HSDR_FINISH_ERROR_NULL, "NULL accepted by the decoder");
    // a filled encoder refuses input until it is polled, refusing loses nothing
    Bytes in = g.content(600);
    size_t k = 0, took = 0;
    while (k < 256) {
        size_t m = (size_t)g.range(1, 300);
        CHECK(heatshrink_encoder_sink(e.e, in.data() + k, std::min(m, 600 - k), &took) == HSER_SINK_OK, "sink refused with room left");
        CHECK(took == std::min(m, 256 - k), "took %zu of %zu with %zu free", took, m, 256 - k);
        k += took;
    }
    CHECK(heatshrink_encoder_sink(e.e, in.data() + k, 10, &took) == HSER_SINK_ERROR_MISUSE, "full encoder takes input");
    Sched canon;
    Bytes out;
    enc_drain(e, canon, out, 4096);
    CHECK(heatshrink_encoder_finish(e.e) == HSER_FINISH_MORE, "done with data left");
    CHECK(heatshrink_encoder_sink(e.e, in.data() + k, 10, &took) == HSER_SINK_ERROR_MISUSE, "finishing encoder takes input");
    enc_drain(e, canon, out, 4096);
    CHECK(heatshrink_encoder_finish(e.e) == HSER_FINISH_DONE, "not done");
    in.resize(256);
    CHECK(delta::hs_decode(out) == in, "refused calls damaged the stream");
    // the decoder takes 256 bytes and no more until polled
    size_t tot = 0;
    Bytes enc = g.content(400);
    while (tot < 256) {
        size_t m = (size_t)g.range(1, 300);
        CHECK(heatshrink_decoder_sink(d.d, enc.data() + tot, std::min(m, 400 - tot), &took) == HSDR_SINK_OK && took == std::min(m, 256 - tot), "decoder took %zu", took);
        tot += took;
    }
    CHECK(heatshrink_decoder_sink(d.d, enc.data() + tot, 10, &took) == HSDR_SINK_FULL && took == 0, "full decoder takes input");
    CHECK(heatshrink_decoder_finish(d.d) == HSDR_FINISH_MORE, "done with input left");
    out.clear();
    dec_drain(d, canon, out, 1 << 20);
    enc.resize(256);
    CHECK(out == delta::hs_decode(enc), "decoded: %s", diff_desc(out, delta::hs_decode(enc)).c_str());
    c.nontrivial();
}
static Bytes gen_stream(Case &c, Gen &g)
{
    Bytes s;
    switch (g.weighted({3, 3, 3, 1})) {
    case 0: s = g.content((size_t)g.logsize(c.thorough ? 8000 : 1500)); c.label("bytes"); break;
    case 1: { // valid codes, arbitrary distances and counts, any alignment
        size_t n = (size_t)g.range(1, 400);
        Rng r(g.draw(1u << 30));
        unsigned acc = 0, nb = 0;
        auto put = [&](unsigned v, unsigned k) {
            while (k--) {
                acc = acc << 1 | ((v >> k) & 1);
                if (++nb == 8) {
                    s.push_back((uint8_t)acc);
                    acc = nb = 0;
                }
            }
        };
        unsigned lit = (unsigned)g.below(4);
        while (n--) {
            if (r.next() % 4 < lit) {
                put(1, 1);
                put((unsigned)r.next() & 0xff, 8);
            } else {
                put(0, 1);
                put((unsigned)(r.next() % 2 ? r.next() % 256 : r.next() % 2 ? 255 : r.next() % 4), 8);
                put((unsigned)(r.next() % 2 ? r.next() % 128 : 127), 7);
            }
        }
        unsigned pad = (unsigned)g.below(2);
        while (nb)
            put(pad, 1);
        c.label("codes");
        break;
    }
    case 2: { // damaged encoding
        Enc e;
        Sched canon;
        s = hs_encode(e, gen_data(c, g), canon);
        for (size_t k = (size_t)g.below(6); k && !s.empty(); k--)
            s[g.below(s.size())] ^= (uint8_t)(1u << g.below(8));
        if (g.flip())
            s.resize((size_t)g.below(s.size() + 1));
        c.label("damaged");
        break;
    }
    default: s = g.literal(24); c.label("short");
    }
    return s;
}
static void arbitrary(Case &c)
{
    Gen &g = c.g;
    Bytes in = gen_stream(c, g), want = delta::hs_decode(in);
    Dec d;
    Sched s;
    s.draw(g);
    if (g.chance(30)) {
        Bytes junk = g.content(1 + (size_t)g.below(300)), ob(1 + (size_t)g.below(700));
        size_t took = 0;
        heatshrink_decoder_sink(d.d, junk.data(), junk.size(), &took);
        heatshrink_decoder_poll(d.d, ob.data(), ob.size(), &took);
        heatshrink_decoder_reset(d.d);
    }
    c.log("%zu bytes decode to %zu, %s\n%s", in.size(), want.size(), s.desc().c_str(), in.size() <= 64 ? hexs(in.data(), in.size()).c_str() : "");
    Bytes out = hs_decode_impl(d, in, s, want.size() + 200);
    CHECK(out == want, "decoded: %s", diff_desc(out, want).c_str());
    if (want.size() > 256)
        c.label("window wrapped");
    if (want.size() > 16)
        c.nontrivial();
}

static std::vector<Prop> props = {
    {"C18", "round trip", round_trip, 120000, 1000000, "data with copies around the window and lookahead limits, random pieces on both sides, reused coders, against the canonical schedule and a reference decoder; non-trivial: more than 128 bytes", 20},
    {"C18", "coupled", coupled, 36000, 300000, "encoder and decoder in lock step with refused calls; non-trivial: more than 128 bytes", 20},
    {"C18", "runs", runs, 12000, 100000, "periodic data of any period that fits the window must be compressed; non-trivial: more than a period and a lookahead", 20},
    {"C18", "misuse", misuse, 6000, 48000, "NULL arguments, full and finishing coders; all non-trivial", 20},
    {"C19", "arbitrary input", arbitrary, 180000, 1500000, "random bytes, random codes, damaged encodings, any schedule, against a reference decoder; non-trivial: more than 16 bytes of output", 20},
};
PBT_MAIN(props)
