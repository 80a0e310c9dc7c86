//@ bounds: every 32-bit value, every prefix width 1..8, two arbitrary bytes following the encoded integer
//@ outside: nothing (the value domain of the API is covered)
//@ cases-quick: [(f"prefix{i}", [i]) for i in range(1, 9)]
//@ reach: done
//@ sources: lib/hpack/
// C01: integer encoder emits exactly RFC 7541 5.1; decoder reads it back.
#include <ionsym.h>
#include <vector>
#include "hpack/int_encoder.h"
#include "hpack/int_decoder.h"
using namespace ion;
int harness_main() {
    uint32_t v = sym_val<uint32_t>("value");
    unsigned prefix = (unsigned)sym_param(0);
    std::vector<uint8_t> out = IntegerEncoder::encode(v, (uint8_t)prefix);
    // RFC 7541 section 5.1
    uint8_t ref[8]; size_t n = 0;
    uint32_t max = (1u << prefix) - 1;
    if (v < max) ref[n++] = (uint8_t)v;
    else {
        ref[n++] = (uint8_t)max;
        uint32_t r = v - max;
        while (r >= 128) { ref[n++] = (uint8_t)(r % 128 + 128); r /= 128; }
        ref[n++] = (uint8_t)r;
    }
    sym_assert(out.size() == n, "encoded length is that of RFC 7541 5.1");
    for (size_t i = 0; i < n; ++i) sym_assert(out[i] == ref[i], "encoded byte is that of RFC 7541 5.1");
    sym_observe("out", out.data(), out.size());
    // decode followed by trailing bytes
    std::vector<uint8_t> buf(out);
    uint8_t t[2]; sym_make(t, 2, "trailer");
    buf.push_back(t[0]); buf.push_back(t[1]);
    ByteReader br{buf};
    auto d = IntegerDecoder::decode(br, (uint8_t)prefix);
    sym_assert(d.has_value(), "encoded integer decodes");
    if (d) { sym_assert(*d == v, "round trip"); sym_observe("dec", &*d, 4); }
    sym_assert(br.has_bytes(2) && !br.has_bytes(3), "exactly the encoded bytes are consumed");
    sym_reach("done");
    return 0;
}
