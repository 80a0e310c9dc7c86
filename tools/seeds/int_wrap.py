PROPERTY = 'C02'
NEEDS = 'a five-byte continuation whose last byte fits by itself but whose sum with the lower bits exceeds 2^32-1'
BREAKS = 'the overflow guard ignores what has been summed so far, so such an integer wraps to a small value instead of being refused'
EDITS = [('lib/hpack/int_decoder.cpp', 'if (value > (std::numeric_limits<uint32_t>::max() - sum) >> shift) {', 'if (value > std::numeric_limits<uint32_t>::max() >> shift) {')]
SOURCES = 'lib/hpack/int_decoder.cpp lib/hpack/byte_reader.cpp'
DEMO = r'''#include "conn_kit.h"
#include "hpack/int_decoder.h"
int main() {
    Bytes b{0x1f, 0xff, 0xff, 0xff, 0xff, 0x0f};   // 31 + 2^32-1
    ByteReader r(b);
    CHECK(!ion::IntegerDecoder::decode(r, 5));
    Bytes ok{0x1f, 0xe0, 0xff, 0xff, 0xff, 0x0f};  // 2^32-1
    ByteReader r2(ok);
    auto v = ion::IntegerDecoder::decode(r2, 5);
    CHECK(v && *v == 0xffffffffu);
}
'''
