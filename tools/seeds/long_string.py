PROPERTY = 'C03'
NEEDS = 'a header value whose Huffman coding is at least 16511 bytes long, so that its length takes more than two continuation bytes'
BREAKS = 'the third and later bytes of the string length are dropped and the rest of the block is misread'
EDITS = [('lib/hpack/header_block_encoder.cpp', '''        bytes.push_back(0x80 | encoded_length[0]);
        for (const auto& byte : encoded_length | std::ranges::views::drop(1)) {''', '''        bytes.push_back(0x80 | encoded_length[0]);
        for (const auto& byte :
             encoded_length | std::ranges::views::drop(1) | std::ranges::views::take(2)) {''')]
SOURCES = 'lib/hpack/*.cpp'
DEMO = r'''#include "conn_kit.h"
#include "hpack/header_block_encoder.h"
#include "hpack/int_decoder.h"
int main() {
    for (size_t n : {10u, 300u, 5000u, 60000u}) {
        ion::DynamicTable t;
        ion::HeaderBlockEncoder e(t);
        auto b = e.encode({{"server", std::string(n, 'X')}});   // 'X' has an 8-bit code
        ByteReader r{std::span<const uint8_t>(b)};
        CHECK(ion::IntegerDecoder::decode(r, 6));
        auto len = ion::IntegerDecoder::decode(r, 7);
        CHECK(len && *len == n);
        auto rest = r.read_bytes(*len);
        CHECK(rest && !r.has_bytes());
    }
}
'''
