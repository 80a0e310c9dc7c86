//@ py: def C(full): return [(f"{w}_plain{n}", [wi, n, 0, 1, 9, 0]) for wi, w in ((0,"name"),(1,"value"),(2,"both")) for n in range(0, 4 if wi < 2 else 3)] + [(f"{w}_len{n}_at{a}_{b}", [wi, n, a, b, 2, 0]) for wi, w in ((0,"name"),(1,"value")) for (n,a,b) in ([(4,0,1),(4,2,3),(5,0,4),(7,3,4),(9,7,8)] if full else [(4,0,1),(5,0,4)] if wi else [(4,2,3)])] + [(f"{w}_len{n}_fill{f}_at{a}", [wi, n, a, a, 2, f]) for wi, w in ((0,"name"),(1,"value")) for (n,a,f) in [(4,0,0),(5,2,0),(6,5,0),(8,7,0),(201,200,0),(202,201,0),(203,0,0),(204,203,0),(36,35,1),(37,0,1),(38,20,1),(140,139,0)] + ([(4095,4094,0),(4096,17,0),(4097,5,0),(30000,29999,0),(300,299,1),(4720,4719,1)] if full else [(4096,4095,0),(9000,1,0),(4720,4719,1)] if wi else [])]
//@ cases-quick: C(False)
//@ cases-thorough: C(True)
//@ bounds: header names and values of 0..3 wholly arbitrary bytes; of 4..9 bytes with two arbitrary bytes; of up to 9000 (quick) / 30000 (thorough) bytes, around the lengths where the encoded length prefix grows (126..128, and 16510 and over), with one arbitrary byte at the listed positions; filler bytes with 5-bit or 28-bit codes
//@ outside: more than two (three when plain) arbitrary bytes in one string at once; the encoder treats every byte independently of the others apart from the bit offset
//@ reach: decoded
//@ sources: lib/hpack/
// C03: what the encoder writes for a name or value is read back by a conforming decoder and by ion's own.
#include <ionsym.h>
#include "hpack/header_block_decoder.h"
#include "hpack/header_block_encoder.h"
#include "../ref/hpack_ref.h"
using namespace ion;
static std::string mk(size_t n, size_t a, size_t b, bool all, char fill, const char* nm) {
    std::string s(n, fill);
    if (all) { if (n) sym_make(s.data(), n, nm); }
    else {
        if (a < n) s[a] = (char)sym_val<uint8_t>(nm);
        if (b < n && b != a) s[b] = (char)sym_val<uint8_t>(nm);
    }
    return s;
}
int harness_main() {
    int which = (int)sym_param(0);
    size_t n = (size_t)sym_param(1), a = (size_t)sym_param(2), b = (size_t)sym_param(3);
    bool all = sym_param(4) == 9;
    char fill = sym_param(5) ? (char)0xf9 : 'a';
    std::string var = mk(n, a, b, all, fill, "text");
    HttpHeader h;
    if (which == 0) h = {var, "v"}; else if (which == 1) h = {"x-k", var}; else h = {var, mk(n, a, b, all, fill, "value")};
    DynamicTable t{4096};
    HeaderBlockEncoder enc{t};
    std::vector<uint8_t> out = enc.encode({h});
    ref::Table rt{4096};
    std::vector<ref::Header> got;
    ref::Limits lim; lim.string = 1u << 20;
    bool ok = ref::blockDecode(out.data(), out.size(), rt, got, lim);
    sym_assert(ok, "the encoded header block is valid HPACK");
    if (ok) {
        sym_assert(got.size() == 1, "one header is encoded as one field");
        sym_assert(got.size() == 1 && ref::sameStr(got[0].first, h.name) && ref::sameStr(got[0].second, h.value), "a conforming decoder recovers exactly the same bytes");
    }
    if (h.name.size() <= 4096 && h.value.size() <= 4096) {
        DynamicTable t2{4096};
        HeaderBlockDecoder dec{t2};
        auto r = dec.decode(out);
        sym_assert(r.has_value() && r->size() == 1 && ref::sameStr(r->at(0).name, h.name) && ref::sameStr(r->at(0).value, h.value), "ion's own decoder recovers exactly the same bytes");
    }
    sym_observe("block", out.data(), out.size() < 64 ? out.size() : 64);
    sym_reach("decoded");
    return 0;
}
