//@ py: L = [(f"{w}_{f}_{k}_{n}", [0, wi, fi, ki, n]) for wi, w in ((0,"name"),(1,"value")) for fi, f in ((0,"plain"),(5,"huff5"),(13,"huff13"),(28,"huff28")) for ki, k in ((0x40,"inc"),(0x00,"noidx"),(0x10,"never")) for n in (4095,4096,4097)]
//@+ Q = [x for i, x in enumerate(L) if x[0].split("_")[1] in ("plain","huff5") or (x[0].split("_")[2] == "inc" and x[0].split("_")[3] != "4095")]
//@+ I = [(f"idxname_{k}_{n}", [4, 0, 0, ki, n]) for ki, k in ((0x41,"inc"),(0x04,"noidx"),(0x14,"never")) for n in (4096,4097)]
//@+ S = [("size_all", [1,0,0,0,0]), ("size_twice", [1,1,0,0,0]), ("fill_exact", [2,0,0,0,0]), ("fill_over", [2,1,0,0,0]), ("fill_wipe", [2,2,0,0,0]), ("shrink_grow", [3,0,0,0,0])]
//@ cases-quick: Q + I + S
//@ cases-thorough: L + I + S + [(f"{w}_{f}_inc_{n}", [0, wi, fi, 0x40, n]) for wi, w in ((0,"name"),(1,"value")) for fi, f in ((0,"plain"),(5,"huff5"),(13,"huff13")) for n in (0,1,127,128,2048,4000,4098,5000,6553,6554,8192,10485,16384,65535,65536)]
//@ bounds: literal names and values (new or indexed name) of 4095..4097 bytes (thorough: 15 further lengths up to 65536), in plain form and Huffman-coded with 5-, 13- and 28-bit codes, the first, middle and last byte arbitrary (of coded ones the last), in the three literal representations; size updates of every value with up to four continuation bytes; table filled by maximum-size entries with the last entry's length arbitrary around the exact limit; shrinking and growing with arbitrary sizes
//@ outside: strings with more arbitrary bytes; longer histories
//@ reach: accepted refused
//@ sources: lib/hpack/
// C08: limits on what a peer can make the header decoder hold.
#include <ionsym.h>
#include "hpack/header_block_decoder.h"
#include "../ref/hpack_ref.h"
using namespace ion;
static std::vector<uint8_t> huff(const std::string& s) {
    std::vector<uint8_t> o; uint64_t acc = 0; unsigned nb = 0;
    for (unsigned char c : s) {
        acc = acc << ref::kHuffLen[c] | ref::kHuffCode[c]; nb += ref::kHuffLen[c];
        while (nb >= 8) { o.push_back((uint8_t)(acc >> (nb - 8))); nb -= 8; }
    }
    if (nb) o.push_back((uint8_t)(acc << (8 - nb) | ((1u << (8 - nb)) - 1)));
    return o;
}
static void putLong(std::vector<uint8_t>& b, const std::string& s, bool h) {
    if (!h) { ref::putStr(b, s); return; }
    auto e = huff(s);
    ref::putInt(b, 0x80, 7, (uint32_t)e.size());
    b.insert(b.end(), e.begin(), e.end());
}
static DynamicTable t;
static HeaderBlockDecoder* dec;
static ref::Table rt{65536};
static bool run(const std::vector<uint8_t>& b, std::vector<HttpHeader>* out = nullptr) {
    std::vector<ref::Header> want;
    auto r = dec->decode(b);
    bool ok = ref::blockDecode(b.data(), b.size(), rt, want);
    sym_assert((size_t)t.size() <= 65536, "the decoder's dynamic table never holds more than 65536 bytes");
    if (ok) {
        sym_assert(r.has_value(), "what is within the limits is accepted");
        sym_assert(t.count() == rt.e.size() && (size_t)t.size() == rt.size, "the table limit in force is the one the peer set");
        sym_reach("accepted");
    } else {
        sym_assert(!r.has_value(), "what exceeds the limits is refused");
        sym_reach("refused");
    }
    if (r && out) *out = *r;
    return r.has_value();
}
static void real() {
    size_t sum = 0;
    for (size_t i = 0; i < t.count(); ++i) { HttpHeader h = t.get(i); sum += h.name.size() + h.value.size() + 32; }
    sym_assert(sum <= 65536 && sum == (size_t)t.size(), "the entries themselves add up to at most 65536 bytes");
}
int harness_main() {
    dec = new HeaderBlockDecoder{t};
    int mode = (int)sym_param(0);
    std::vector<uint8_t> b;
    std::vector<HttpHeader> out;
    if (mode == 0 || mode == 4) {
        int f = (int)sym_param(2); size_t n = (size_t)sym_param(4);
        std::string s(n, f == 13 ? '#' + 0 : f == 28 ? (char)2 : 'a');
        if (f == 13) s.assign(n, '\0');
        if (f == 0 && n) for (size_t i : {n / 2, (size_t)0, n - 1}) { s[i] = (char)sym_val<uint8_t>("char"); if (mode == 4) break; }
        else if (n) { static const char alt[] = "012aceiost"; s[n - 1] = f == 5 ? alt[sym_choose(10, "char")] : f == 13 ? (char)("\0$@[]~"[sym_choose(6, "char")]) : (char)("\2\3\4\5"[sym_choose(4, "char")]); }
        b.push_back((uint8_t)sym_param(3));
        if (mode == 4) putLong(b, s, sym_bool("huffman"));
        else if (sym_param(1) == 0) { putLong(b, s, f); ref::putStr(b, "v"); } else { ref::putStr(b, "name"); putLong(b, s, f); }
        bool ok = run(b, &out);
        sym_assert(ok == (n <= 4096), "a literal string is accepted exactly when it is at most 4096 bytes after decoding");
        if (ok) sym_assert(out.size() == 1 && ref::sameStr(sym_param(1) == 0 && mode == 0 ? out[0].name : out[0].value, s), "a string within the limit is read whole");
    } else if (mode == 1) {
        auto upd = [&]() {
            std::vector<uint8_t> u{0x3f};
            for (int i = 0; i < 4; ++i) u.push_back(sym_val<uint8_t>("byte"));
            size_t n = 1; while (n < 4 && (u[n] & 0x80)) ++n;
            sym_assume((u[n] & 0x80) == 0); u.resize(n + 1);
            uint64_t v = 31; for (size_t i = 1; i <= n; ++i) v += (uint64_t)(u[i] & 0x7f) << (7 * (i - 1));
            bool ok = run(u);
            sym_assert(ok == (v <= 65536), "a size update is honoured exactly when it is at most 65536");
            return ok;
        };
        if (!upd()) return 0;
        if (sym_param(1) && !upd()) return 0;
        std::string big(60, 'x');
        ref::putLiteral(b, "n", big, 0x40); ref::putLiteral(b, "m", big, 0x40);
        run(b);
    } else if (mode == 2) {
        std::string v(4096, 'v');
        for (int i = 0; i < 7; ++i) { b.clear(); std::string n(4096, 'n'); n[0] = (char)('0' + i); ref::putLiteral(b, n, v, 0x40); run(b); }
        // 65536 - 7 * 8224 = 7968
        size_t k = (size_t)sym_choose(5, "last length");
        b.clear();
        if (sym_param(1) == 0) ref::putLiteral(b, std::string(3838 + k, 'z'), v, 0x40);
        else for (int i = 0; i < 4; ++i) ref::putLiteral(b, std::string(4094 + (k > 2 ? 2 : k), 'a' + i), v, 0x40);
        run(b);
        if (sym_param(1) == 2) { b = {0x20}; run(b); b.clear(); ref::putInt(b, 0x20, 5, 65536); run(b); b.clear(); ref::putLiteral(b, "q", "r", 0x40); run(b); }
        real();
    } else {
        for (int i = 0; i < 4; ++i) ref::putLiteral(b, std::string(1, 'a' + i), std::string(20 * i, 'v'), 0x40);
        run(b);
        size_t n = 30 + (size_t)sym_choose(300, "size");
        b.clear(); ref::putInt(b, 0x20, 5, (uint32_t)n);
        if (run(b)) {
            b.clear(); ref::putLiteral(b, "e", "f", 0x40); run(b);
            b.clear(); ref::putInt(b, 0x20, 5, 65536 + (uint32_t)sym_choose(2, "over")); 
            if (run(b)) { b.clear(); ref::putLiteral(b, "g", std::string(4096, 'h'), 0x40); run(b); real(); }
        }
    }
    return 0;
}
