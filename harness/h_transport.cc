// C11 transport round trip, C15 refusals, C13/C14 streaming transport decoding.
#include "stream.hh"
extern "C" {
#include <bpak/pkg.h>
#include <bpak/transport.h>
#include <bpak/id.h>
}
using namespace pbt;
using namespace model;
using namespace world;
using namespace stream;

static void roundtrip(Case &c)
{
    Gen &g = c.g;
    World w = make_world(c, g, true, true);
    Bytes inf = w.in.build(), orgf = w.org.build();
    std::string pi = c.path("in"), po = c.path("org"), pe = c.path("enc"), pd = c.path("dec");
    write_file(pi, inf);
    write_file(po, orgf);
    bool use_org = w.has_delta || g.flip();
    if (w.has_delta || w.has_tree)
        c.nontrivial();
    c.label(w.has_delta ? w.has_tree ? "delta and tree" : "delta" : w.has_tree ? "tree" : "plain");
    int rc = file_code(true, pi, pe, use_org ? po : "");
    CHECK(rc == BPAK_OK, "encoding failed: %s", bpak_error_string(rc));
    Bytes enc = slurp(pe);
    check_encoded(w, orgf, enc);
    rc = file_code(false, pe, pd, use_org ? po : "");
    CHECK(rc == BPAK_OK, "decoding failed: %s", bpak_error_string(rc));
    Bytes dec = slurp(pd);
    CHECK(dec == inf, "decoded archive differs from the original: %s", cmp(dec, inf).c_str());
    CHECK(slurp(pi) == inf, "the input changed");
    CHECK(slurp(po) == orgf, "the origin changed");
    CHECK(slurp(pe) == enc, "the encoded archive changed while it was decoded");
    // again, from a package that stays open
    if (g.chance(30)) {
        c.label("decoded twice from one package");
        Pkg i, r;
        CHECK(i.open_file(pe, "rb") == BPAK_OK && r.open_file(po, "rb") == BPAK_OK, "cannot reopen");
        for (int k = 0; k < 2; k++) {
            Pkg o;
            std::string p3 = c.path(strf("dec%d", k));
            CHECK(o.open_file(p3, "wb+") == BPAK_OK, "cannot create the output");
            rc = bpak_pkg_transport_decode(i.p, o.p, use_org ? r.p : nullptr);
            CHECK(rc == BPAK_OK && o.close() == BPAK_OK, "decode %d from an open package failed: %s", k, bpak_error_string(rc));
            Bytes d3 = slurp(p3);
            CHECK(d3 == inf, "decode %d from an open package: %s", k, cmp(d3, inf).c_str());
        }
    }
    // the streaming interface
    Stream s;
    s.origin_off = delta::pick_off(g);
    s.out_off = delta::pick_off(g);
    rc = stream_decode(enc, use_org ? &orgf : nullptr, s, delta::pick_buf(g), &g, true);
    CHECK(s.bad.empty(), "streaming decoder: %s", s.bad.c_str());
    CHECK(rc == BPAK_OK, "streaming decode failed: %s", bpak_error_string(rc));
    Bytes got = s.hdr;
    if (w.in.parts.empty()) // there is nothing to feed, the header is the caller's
        got.assign(inf.begin(), inf.end());
    got.insert(got.end(), s.out.begin(), s.out.end());
    CHECK(got == inf, "streaming decoder's output differs from the original: %s", cmp(got, inf).c_str());
    // encoding what is already encoded changes nothing
    if (g.chance(30)) {
        c.label("encoded twice");
        std::string p2 = c.path("enc2");
        rc = file_code(true, pe, p2, use_org ? po : "");
        CHECK(rc == BPAK_OK, "encoding an encoded archive failed: %s", bpak_error_string(rc));
        Bytes e2 = slurp(p2);
        CHECK(e2 == enc, "encoding an encoded archive: %s", cmp(e2, enc).c_str());
    }
}

// the archive travels through a chain of versions
static void chain(Case &c)
{
    Gen &g = c.g;
    World w = make_world(c, g, false);
    size_t steps = (size_t)g.range(2, 4);
    std::string cur = c.path("v0"), pe = c.path("enc"), pi = c.path("in");
    write_file(cur, w.org.build());
    for (size_t k = 0; k < steps; k++) {
        Arc a;
        a.metas.push_back(w.in.metas[0]);
        for (auto &p : w.in.parts) {
            int i = w.in.find(p.id), co = w.coding[(size_t)i];
            if (co >= 0 && co < 3 && ref::tree_id(p.id) && w.org.find(p.id) >= 0) {
                Bytes t = delta::edit(c, g, p.data(), 9000, false);
                a.add(p.id, t, p.flags);
                a.add_transport(p.id, ENC[co], DEC[co]);
            } else
                a.add(p.id, p.data(), p.flags);
        }
        a.update_hash();
        Bytes inf = a.build();
        write_file(pi, inf);
        int rc = file_code(true, pi, pe, cur);
        CHECK(rc == BPAK_OK, "step %zu: encoding failed: %s", k, bpak_error_string(rc));
        std::string nx = c.path(strf("v%zu", k + 1));
        rc = file_code(false, pe, nx, cur);
        CHECK(rc == BPAK_OK, "step %zu: decoding failed: %s", k, bpak_error_string(rc));
        Bytes dec = slurp(nx);
        CHECK(dec == inf, "step %zu: decoded archive differs: %s", k, cmp(dec, inf).c_str());
        unlink(cur.c_str());
        cur = nx;
        w.in.parts = a.parts;
        w.org.parts = a.parts;
    }
    if (w.has_delta)
        c.nontrivial();
}

// ------------------------------------------------------------------ C15
static void refuse(Case &c)
{
    Gen &g = c.g;
    World w = make_world(c, g, false);
    std::string pi = c.path("in"), po = c.path("org"), pe = c.path("enc"), pd = c.path("dec");
    Bytes inf = w.in.build();
    write_file(pi, inf);
    write_file(po, w.org.build());
    int rc = file_code(true, pi, pe, po);
    CHECK(rc == BPAK_OK, "encoding failed: %s", bpak_error_string(rc));
    Bytes enc = slurp(pe);
    // now spoil one thing
    Arc bad_in = w.in, bad_org = w.org;
    bool use_org = true, must_fail_enc = true, must_fail_dec = true;
    size_t dp = (size_t)-1;
    for (size_t i = 0; i < w.coding.size(); i++)
        if (w.coding[i] >= 0 && w.coding[i] < 3)
            dp = i;
    auto drop = [](Arc &a, uint32_t id) {
        for (size_t i = 0; i < a.metas.size(); i++)
            if (a.metas[i].id == id) {
                a.metas.erase(a.metas.begin() + (long)i);
                return;
            }
    };
    Bytes denc = enc; // archive given to the decoder
    std::string what;
    switch (g.below(8)) {
    case 0:
        what = "origin of another package";
        bad_org.metas[0].data[g.below(16)] ^= (uint8_t)(1 + g.below(255));
        break;
    case 1:
        what = "origin without package identity";
        drop(bad_org, ID_PACKAGE);
        break;
    case 2: {
        what = "input without package identity";
        drop(bad_in, ID_PACKAGE);
        // same in the encoded archive: give the entry another id
        for (size_t i = 0; i < 32; i++)
            if (ref::le(denc, ref::H_META + 16 * i, 4) == ID_PACKAGE)
                put(denc, ref::H_META + 16 * i, 4, 0x1234567);
        break;
    }
    case 3: {
        what = "input of another package";
        size_t k = g.below(16);
        uint8_t x = (uint8_t)(1 + g.below(255));
        bad_in.metas[0].data[k] ^= x;
        denc[ref::H_DATA + k] ^= x;
        break;
    }
    case 4:
        what = "no origin";
        use_org = false;
        must_fail_enc = must_fail_dec = w.has_delta;
        break;
    case 5: { // origin lacks a delta coded part
        what = "origin lacks a part";
        uint32_t id = dp != (size_t)-1 ? w.in.parts[dp].id : w.in.parts[0].id;
        must_fail_enc = must_fail_dec = dp != (size_t)-1;
        for (size_t i = 0; i < bad_org.parts.size(); i++)
            if (bad_org.parts[i].id == id) {
                bad_org.parts.erase(bad_org.parts.begin() + (long)i);
                break;
            }
        break;
    }
    case 6: { // unknown coding
        what = "unknown coding";
        int m = -1;
        for (size_t i = 0; i < bad_in.metas.size(); i++)
            if (bad_in.metas[i].id == ID_TRANSPORT)
                m = (int)i;
        if (m < 0) {
            must_fail_enc = must_fail_dec = false;
            break;
        }
        uint32_t alg = g.pick<uint32_t>({0x11111111, 0xffffffff, DEC[0], 1});
        put(bad_in.metas[(size_t)m].data, 0, 4, alg);
        for (size_t i = 0; i < 32; i++)
            if (ref::le(denc, ref::H_META + 16 * i, 4) == ID_TRANSPORT && ref::le(denc, ref::H_META + 16 * i + 8, 4) == bad_in.metas[(size_t)m].ref)
                put(denc, ref::H_DATA + ref::le(denc, ref::H_META + 16 * i + 6, 2) + 4, 4, alg == DEC[0] ? ENC[0] : alg);
        break;
    }
    default: // origin too short: its last part is cut off
        what = "nothing wrong";
        must_fail_enc = must_fail_dec = false;
    }
    c.log("spoiled: %s\n", what.c_str());
    c.label(what);
    if (must_fail_enc)
        c.nontrivial();
    std::string bi = c.path("bin"), bo = c.path("borg"), be = c.path("benc"), bd = c.path("bdec");
    Bytes bif = bad_in.build(), bof = bad_org.build();
    write_file(bi, bif);
    write_file(bo, bof);
    rc = file_code(true, bi, be, use_org ? bo : "");
    if (must_fail_enc)
        CHECK(rc != BPAK_OK, "encoding with %s succeeded", what.c_str());
    else
        CHECK(rc == BPAK_OK, "encoding with %s failed: %s", what.c_str(), bpak_error_string(rc));
    write_file(be, denc);
    rc = file_code(false, be, bd, use_org ? bo : "");
    Bytes out = exists(bd) ? slurp(bd) : Bytes();
    Bytes dref = inf; // what the decoded archive would look like
    std::copy(denc.begin(), denc.begin() + ref::H_PARTS, dref.begin());
    std::copy(denc.begin() + ref::H_DATA, denc.begin() + 4096, dref.begin() + ref::H_DATA);
    if (must_fail_dec) {
        CHECK(rc != BPAK_OK, "decoding with %s succeeded", what.c_str());
        if (w.has_delta)
            CHECK(out != dref, "the failed decode left the complete decoded archive behind");
    } else {
        CHECK(rc == BPAK_OK, "decoding with %s failed: %s", what.c_str(), bpak_error_string(rc));
        CHECK(out == dref, "decoding with %s: %s", what.c_str(), cmp(out, dref).c_str());
    }
    CHECK(slurp(bi) == bif && slurp(bo) == bof && slurp(be) == denc, "an input changed");
    Stream s;
    int rs = stream_decode(denc, use_org ? &bof : nullptr, s, 4096, nullptr, true);
    CHECK(s.bad.empty(), "streaming decoder: %s", s.bad.c_str());
    CHECK((rs == BPAK_OK) == (rc == BPAK_OK), "file decoder: %d, streaming decoder: %d", rc, rs);
}

// ------------------------------------------------------------------ C13 / C14
static Bytes encode_ref(World &w, Gen &g) // encoded archive by the code under test
{
    (void)g;
    return {};
}
static Bytes damage(Case &c, Gen &g, Bytes e, const World &w)
{
    size_t n = (size_t)g.range(1, 3);
    for (size_t k = 0; k < n; k++) {
        switch (g.weighted({4, 3, 2, 1, 2})) {
        case 0: { // payload bytes
            if (e.size() > 4096) {
                size_t p = 4096 + (size_t)g.below(e.size() - 4096);
                e[p] ^= (uint8_t)(1 + g.below(255));
                c.log("payload byte %zu changed; ", p);
            }
            break;
        }
        case 1: { // part header field
            size_t i = (size_t)g.below(w.in.parts.size() + 1);
            static const struct { size_t o; int n; } f[] = {{0, 4}, {4, 8}, {12, 8}, {20, 8}, {28, 2}, {30, 1}};
            auto q = f[g.below(6)];
            static const uint64_t v[] = {0, 1, 2, 3, 512, 4096, 1u << 20, 1ull << 31, 1ull << 40, (uint64_t)-1, (uint64_t)-512, 1ull << 63};
            uint64_t val = g.chance(60) ? ref::le(e, ref::H_PARTS + 32 * i + q.o, q.n) + (uint64_t)g.range(0, 8) * 512 - 2048 : v[g.below(12)];
            put(e, ref::H_PARTS + 32 * i + q.o, q.n, val);
            c.log("part %zu field %zu = %llx; ", i, q.o, (unsigned long long)val);
            break;
        }
        case 2: { // metadata header or bytes
            size_t p = g.flip() ? ref::H_META + (size_t)g.below(16 * (w.in.metas.size() + 1)) : ref::H_DATA + (size_t)g.below(8 * (w.in.metas.size() + 8));
            e[p] = (uint8_t)g.below(256);
            c.log("header byte %zu = %u; ", p, e[p]);
            break;
        }
        case 3:
            e.resize((size_t)g.range(4096, e.size()));
            c.log("truncated to %zu; ", e.size());
            break;
        default: { // a stored delta replaced by control blocks of our own
            size_t i = (size_t)g.below(w.in.parts.size());
            size_t pos = 4096;
            for (size_t j = 0; j < i; j++)
                pos += (e[ref::H_PARTS + 32 * j + 30] & 2) ? ref::le(e, ref::H_PARTS + 32 * j + 20, 8) : w.in.parts[j].stored.size();
            static const int64_t v[] = {0, 1, 100, -1, -100, 1ll << 31, INT64_MAX, -INT64_MAX, 512};
            Bytes ctl;
            for (int q = 0; q < 3; q++)
                delta::put_ctl(ctl, v[g.below(9)]);
            for (size_t q = 0; q < 24 && pos + q < e.size(); q++)
                e[pos + q] = ctl[q];
            c.log("control block overwritten in part %zu; ", i);
        }
        }
    }
    c.log("\n");
    return e;
}
static World enc_world(Case &c, Bytes &enc, Bytes &orgf)
{
    World w = make_world(c, c.g);
    orgf = w.org.build();
    write_file(c.path("in"), w.in.build());
    write_file(c.path("org"), orgf);
    int rc = file_code(true, c.path("in"), c.path("enc"), c.path("org"));
    CHECK(rc == BPAK_OK, "encoding failed: %s", bpak_error_string(rc));
    enc = slurp(c.path("enc"));
    return w;
}
static void stream_chunks(Case &c)
{
    Gen &g = c.g;
    Bytes enc, orgf;
    World w = enc_world(c, enc, orgf);
    bool dmg = g.chance(40);
    if (dmg) {
        Bytes d = damage(c, g, enc, w);
        bpak_header h; // the caller validates headers, as bpak_pkg_open does
        memcpy(&h, d.data(), 4096);
        if (bpak_valid_header(&h) == BPAK_OK)
            enc = d;
        else
            dmg = false;
    }
    if (w.has_delta)
        c.nontrivial();
    Stream a;
    a.limit = 1 << 20;
    int ra = stream_decode(enc, &orgf, a, 4096, nullptr, false);
    CHECK(a.bad.empty(), "in one piece per part: %s", a.bad.c_str());
    for (int k = 0; k < 2; k++) {
        Stream b;
        b.limit = 1 << 20;
        b.origin_off = delta::pick_off(g);
        b.out_off = delta::pick_off(g);
        size_t bl = delta::pick_buf(g);
        int rb = stream_decode(enc, &orgf, b, bl, &g, false);
        CHECK(b.bad.empty(), "in chunks: %s", b.bad.c_str());
        CHECK((ra == BPAK_OK) == (rb == BPAK_OK), "in one piece: %d, in chunks (buffer %zu): %d", ra, bl, rb);
        if (ra == BPAK_OK) {
            CHECK(a.out == b.out, "output depends on chunking: %s", diff_desc(b.out, a.out).c_str());
            CHECK(a.hdr == b.hdr, "final header depends on chunking: %s", cmp(b.hdr, a.hdr).c_str());
        }
    }
    if (!dmg)
        CHECK(ra == BPAK_OK, "decoding failed (%d)", ra);
}
static void stream_hostile(Case &c)
{
    Gen &g = c.g;
    Bytes enc, orgf;
    World w = enc_world(c, enc, orgf);
    enc = damage(c, g, enc, w);
    if (g.chance(20))
        orgf = damage(c, g, orgf, w);
    c.nontrivial();
    Stream s;
    s.limit = 1 << 20;
    bool exact = true;
    bool with_org = !g.chance(10);
    // the caller is told to open archives through the package interface, which validates headers
    bpak_header h;
    memcpy(&h, enc.data(), 4096);
    if (bpak_valid_header(&h) != BPAK_OK) {
        c.label("header refused");
        return;
    }
    memcpy(&h, orgf.data(), 4096);
    if (bpak_valid_header(&h) != BPAK_OK)
        with_org = false;
    for (auto &p : h.parts) // the installed archive does not claim to exceed the address space
        if (bpak_part_size(&p) > (size_t)1 << 50)
            with_org = false;
    int rc = stream_decode(enc, with_org ? &orgf : nullptr, s, delta::pick_buf(g), &g, true, &exact);
    CHECK(s.bad.empty(), "%s", s.bad.c_str());
    if (rc == BPAK_OK) {
        c.label("accepted");
        CHECK(exact, "success was reported for a part that was not produced completely");
    }
}
static void file_hostile(Case &c)
{
    Gen &g = c.g;
    Bytes enc, orgf;
    World w = enc_world(c, enc, orgf);
    enc = damage(c, g, enc, w);
    if (g.chance(30))
        orgf = damage(c, g, orgf, w);
    std::string pe = c.path("e2"), po = c.path("o2"), pd = c.path("d2");
    write_file(pe, enc);
    write_file(po, orgf);
    c.nontrivial();
    {
        Pkg i, o, r;
        if (i.open_file(pe, "rb") != BPAK_OK) {
            c.label("header refused");
            return;
        }
        if (r.open_file(po, "rb") != BPAK_OK)
            return;
        bool enc_again = g.chance(30);
        CHECK(o.open_file(pd, "wb+") == BPAK_OK, "cannot create the output");
        struct rlimit old, rl;
        getrlimit(RLIMIT_FSIZE, &old);
        rl = old;
        rl.rlim_cur = 4u << 20;
        setrlimit(RLIMIT_FSIZE, &rl);
        int rc = enc_again ? bpak_pkg_transport_encode(i.p, o.p, g.flip() ? r.p : nullptr) : bpak_pkg_transport_decode(i.p, o.p, g.chance(90) ? r.p : nullptr);
        int cr = o.close();
        setrlimit(RLIMIT_FSIZE, &old);
        if (!enc_again && rc == BPAK_OK && cr == BPAK_OK) {
            c.label("accepted");
            Bytes out = slurp(pd);
            uint64_t sum = 4096;
            for (size_t k = 0; k < 32; k++)
                if (ref::le(enc, ref::H_PARTS + 32 * k, 4)) // unused entries may stand anywhere
                    sum += ref::le(enc, ref::H_PARTS + 32 * k + 4, 8) + ref::le(enc, ref::H_PARTS + 32 * k + 28, 2);
            CHECK(out.size() == sum, "decoding succeeded but the file has %zu of %llu bytes", out.size(), (unsigned long long)sum);
        }
    }
    CHECK(slurp(pe) == enc, "the input was modified");
    CHECK(slurp(po) == orgf, "the origin was modified");
}

static std::vector<Prop> props = {
    {"C11", "round trip", roundtrip, 12000, 200000, "model archive and origin of the same package with any mix of codings, part orders, sizes, missing plain parts, signatures; encoded by the library, checked against reference decoders, decoded by file and by stream; non-trivial: at least one coded part", 60},
    {"C11", "version chain", chain, 4000, 60000, "2-4 successive versions, each delivered as a transport archive against the previous decoded one; non-trivial: delta-coded part", 60},
    {"C13", "transport stream", stream_chunks, 12000, 200000, "intact and damaged transport archives decoded part-wise in one piece and in random cuttings; non-trivial: delta-coded part", 60},
    {"C14", "damaged transport streams", stream_hostile, 20000, 400000, "encoded archives with damaged payload, part table, metadata, control blocks or origin, streamed in random cuttings; all non-trivial", 60},
    {"C14", "damaged transport files", file_hostile, 15000, 300000, "the same through the package interface, encode and decode; all non-trivial", 60},
    {"C15", "refusals", refuse, 15000, 200000, "one of: foreign or missing identity on either side, no origin, origin lacking the part, unknown coding, nothing; encode, file decode and stream decode; non-trivial: must be refused", 60},
};
PBT_MAIN(props)
