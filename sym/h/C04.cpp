//@ bounds: every Huffman-coded string of up to 4 bytes (quick) / 5 bytes (thorough), and every 3-byte (quick) / 4-byte (thorough) tail after each of several concrete prefixes that leave the decoder at every bit offset; strings of up to 300 (quick) / 4096 (thorough) bytes whose last two are arbitrary
//@ outside: longer strings in which more bytes are arbitrary at once; decoding one symbol depends on nothing but the bits from the current position on
//@ cases-quick: [(f"len{n}", [n, 0]) for n in range(0, 5)] + [(f"off{k}_tail3", [3, k]) for k in range(1, 8)] + [("long30_tail3", [3, 8]), ("eos_tail2", [2, 9])] + [(f"size{z}_tail2", [2, z]) for z in (31, 64, 127, 300)]
//@ cases-thorough: [(f"len{n}", [n, 0]) for n in range(0, 6)] + [(f"off{k}_tail4", [4, k]) for k in range(1, 10)] + [(f"size{z}_tail2", [2, z]) for z in (29, 31, 64, 126, 127, 128, 255, 300, 1024, 4096)]
//@ reach: accepted refused
//@ sources: lib/hpack/
// C04: Huffman decoding, through the header block decoder (literal without indexing, Huffman-coded name).
#include <ionsym.h>
#include "hpack/header_block_decoder.h"
#include "../ref/hpack_ref.h"
using namespace ion;
int harness_main() {
    size_t n = (size_t)sym_param(0), k = (size_t)sym_param(1);
    std::vector<uint8_t> h;
    if (k >= 1 && k <= 7) {
        // k symbols whose code is 5 bits ('a' = 00011): the tail starts 5k bits in, cut to whole bytes by arbitrary bits
        uint64_t bits = 0; unsigned nb = 0;
        for (size_t i = 0; i < k; ++i) { bits = bits << 5 | 3; nb += 5; }
        while (nb % 8 && nb >= 8) { h.push_back((uint8_t)(bits >> (nb - 8))); nb -= 8; if (nb < 8) break; }
        while (nb >= 8) { h.push_back((uint8_t)(bits >> (nb - 8))); nb -= 8; }
        if (nb) { uint8_t last = sym_val<uint8_t>("seam"); sym_assume((last >> (8 - nb)) == (bits & ((1u << nb) - 1))); h.push_back(last); }
    } else if (k == 8) { h = {0xff, 0xff, 0xff, 0xf0}; }        // inside the code of 0x0a (30 bits) or of a neighbour
    else if (k == 9) { h = {0xff, 0xff, 0xff}; }
    else if (k > 9) {                                          // a long run of 'a', the last bytes arbitrary
        for (size_t i = 0; i < k - n; ++i) { unsigned v = 0; for (size_t j = 0; j < 8; ++j) v = v << 1 | ((8 * i + j) % 5 >= 3); h.push_back((uint8_t)v); }
    }
    for (size_t i = 0; i < n; ++i) h.push_back(sym_val<uint8_t>("byte"));
    std::vector<uint8_t> b{0x00};
    if (h.size() < 127) b.push_back((uint8_t)(0x80 | h.size()));
    else { b.push_back(0xff); size_t v = h.size() - 127; for (; v >= 128; v >>= 7) b.push_back((uint8_t)(0x80 | (v & 127))); b.push_back((uint8_t)v); }
    b.insert(b.end(), h.begin(), h.end());
    b.push_back(1); b.push_back('v');
    uint8_t* raw = new uint8_t[b.size()];
    __builtin_memcpy(raw, b.data(), b.size());
    DynamicTable t{4096};
    HeaderBlockDecoder dec{t};
    auto r = dec.decode(std::span<const uint8_t>(raw, b.size()));
    std::string want;
    bool ok = ref::huffDecode(h.data(), h.size(), want);
    if (ok) {
        sym_assert(r.has_value(), "a valid Huffman encoding is accepted");
        if (r) {
            sym_assert(r->size() == 1 && ref::sameStr(r->at(0).name, want), "the decoded string is the one encoded");
            sym_observe("name", r->at(0).name.data(), r->at(0).name.size());
        }
        sym_reach("accepted");
    } else {
        sym_assert(!r.has_value(), "an invalid Huffman encoding (wrong or overlong padding, EOS) is refused");
        sym_reach("refused");
    }
    delete[] raw;
    return 0;
}
