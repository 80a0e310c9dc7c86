//@ bounds: every byte string of length 0..8 (an integer never extends past 6 bytes), every prefix width 1..8
//@ outside: longer inputs: the decoder stops after at most 6 bytes, which the bound includes
//@ cases-quick: [(f"prefix{p}_len{n}", [p, n]) for p in range(1, 9) for n in range(0, 9)]
//@ reach: value error
//@ sources: lib/hpack/
// C02: integer decoding is exact or an error.
#include <ionsym.h>
#include <vector>
#include "hpack/int_decoder.h"
#include "../ref/hpack_ref.h"
using namespace ion;
int harness_main() {
    unsigned prefix = (unsigned)sym_param(0);
    size_t n = (size_t)sym_param(1);
    uint8_t* buf = new uint8_t[n];
    sym_make(buf, n, "bytes");
    ByteReader br{std::span<const uint8_t>(buf, n)};
    auto d = IntegerDecoder::decode(br, (uint8_t)prefix);
    uint32_t want = 0; size_t pos = 0;
    bool ok = ref::intDecode(buf, n, pos, prefix, want);
    sym_assert(d.has_value() == ok, "an integer is refused exactly when it is truncated, over 2^32-1 or over five continuation bytes");
    if (ok && d) {
        sym_assert(*d == want, "the decoded integer is the exact value");
        sym_assert(br.has_bytes(n - pos) && !br.has_bytes(n - pos + 1), "exactly the bytes of the integer are consumed");
        uint32_t v = *d; sym_observe("value", &v, 4);
        sym_reach("value");
    } else sym_reach("error");
    uint8_t r = d.has_value(); sym_observe("ok", &r, 1);
    delete[] buf;
    return 0;
}
