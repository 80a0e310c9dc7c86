// Reference HPACK (RFC 7541) written from the RFC; independent of /repo.
#pragma once
#include "hpack_tables.h"
#include <string>
#include <utility>
#include <vector>
namespace ref {
using Header = std::pair<std::string, std::string>;
struct HuffIndex {
    uint8_t nlen = 0; uint8_t lens[24]{}; uint32_t first[24]{}; uint32_t limit[24]{}; uint16_t off[24]{}; uint8_t sorted[256]{};
};
constexpr HuffIndex makeIndex() {
    HuffIndex h; uint16_t k = 0;
    for (unsigned L = 1; L <= 30; ++L) {
        uint16_t start = k; uint32_t lo = 0, hi = 0;
        // codes of one length are consecutive and increase with the symbol
        for (unsigned s = 0; s < 256; ++s) if (kHuffLen[s] == L) { if (k == start) lo = kHuffCode[s]; hi = kHuffCode[s]; h.sorted[k++] = (uint8_t)s; }
        if (k != start) { h.lens[h.nlen] = (uint8_t)L; h.first[h.nlen] = lo; h.limit[h.nlen] = hi + 1; h.off[h.nlen] = start; ++h.nlen; }
    }
    return h;
}
inline constexpr HuffIndex kHuff = makeIndex();
static_assert(kHuff.limit[kHuff.nlen - 1] == 0x3fffffff);

inline bool huffDecode(const uint8_t* d, size_t n, std::string& out) {
    size_t pos = 0, total = n * 8;
    for (;;) {
        size_t rem = total - pos;
        if (!rem) return true;
        uint64_t w = 0;
        for (size_t i = 0; i < 5; ++i) w = (w << 8) | (pos / 8 + i < n ? d[pos / 8 + i] : 0);
        uint32_t win = (uint32_t)(w >> (8 - pos % 8));
        bool hit = false;
        for (unsigned k = 0; k < kHuff.nlen; ++k) {
            unsigned L = kHuff.lens[k];
            if (L > rem) break;
            uint32_t c = win >> (32 - L);
            if (c < kHuff.limit[k]) { out.push_back((char)kHuff.sorted[kHuff.off[k] + (c - kHuff.first[k])]); pos += L; hit = true; break; }
        }
        if (hit) continue;
        if (rem >= 8) return false;
        return (win >> (32 - rem)) == (1u << rem) - 1;
    }
}
// RFC 7541 5.1 with the limits of the property: at most 5 continuation bytes, at most 2^32-1
inline bool intDecode(const uint8_t* d, size_t n, size_t& pos, unsigned prefix, uint32_t& out) {
    if (pos >= n) return false;
    uint32_t mask = (1u << prefix) - 1;
    uint64_t v = d[pos++] & mask;
    if (v != mask) { out = (uint32_t)v; return true; }
    for (unsigned k = 0;; ++k) {
        if (k == 5 || pos >= n) return false;
        uint8_t b = d[pos++];
        v += (uint64_t)(b & 0x7f) << (7 * k);
        if (!(b & 0x80)) break;
    }
    if (v > 0xffffffffull) return false;
    out = (uint32_t)v;
    return true;
}
struct Table {
    std::vector<Header> e;     // oldest first; index 0 of the RFC is the back
    size_t size = 0, max;
    explicit Table(size_t m) : max(m) {}
    static size_t cost(const Header& h) { return h.first.size() + h.second.size() + 32; }
    void evict(size_t room) { while (!e.empty() && size + room > max) { size -= cost(e.front()); e.erase(e.begin()); } }
    void insert(const Header& h) {
        size_t c = cost(h);
        if (c > max) { e.clear(); size = 0; return; }
        evict(c);
        e.push_back(h); size += c;
    }
    void setMax(size_t m) { max = m; evict(0); }
    const Header& at(size_t i) const { return e[e.size() - 1 - i]; }
};
struct Limits { size_t string = 4096, table = 65536; };
inline bool strDecode(const uint8_t* d, size_t n, size_t& pos, const Limits& lim, std::string& out) {
    if (pos >= n) return false;
    bool h = d[pos] & 0x80;
    uint32_t len;
    if (!intDecode(d, n, pos, 7, len)) return false;
    if (len > n - pos) return false;
    if (h) { if (!huffDecode(d + pos, len, out)) return false; }
    else out.assign((const char*)d + pos, len);
    pos += len;
    return out.size() <= lim.string;
}
// index (1-based) into static + dynamic; false when outside
inline bool lookup(const Table& t, uint32_t i, Header& out) {
    if (i == 0) return false;
    if (i <= 61) { out = {kStatic[i - 1].name, kStatic[i - 1].value}; return true; }
    if (i - 62 >= t.e.size()) return false;
    out = t.at(i - 62);
    return true;
}
inline bool blockDecode(const uint8_t* d, size_t n, Table& t, std::vector<Header>& out, const Limits& lim = {}) {
    size_t pos = 0;
    while (pos < n) {
        uint8_t b = d[pos];
        uint32_t i;
        if (b & 0x80) {
            if (!intDecode(d, n, pos, 7, i)) return false;
            Header h;
            if (!lookup(t, i, h)) return false;
            out.push_back(h);
        } else if ((b & 0xe0) == 0x20) {
            if (!intDecode(d, n, pos, 5, i)) return false;
            if (i > lim.table) return false;
            t.setMax(i);
        } else {
            bool inc = b & 0x40;
            if (!intDecode(d, n, pos, inc ? 6 : 4, i)) return false;
            Header h;
            if (i) { if (!lookup(t, i, h)) return false; h.second.clear(); }
            else if (!strDecode(d, n, pos, lim, h.first)) return false;
            if (!strDecode(d, n, pos, lim, h.second)) return false;
            if (inc) t.insert(h);
            out.push_back(h);
        }
    }
    return true;
}
// encoder side helpers for building blocks
inline void putInt(std::vector<uint8_t>& o, uint8_t bits, unsigned prefix, uint32_t v) {
    uint32_t m = (1u << prefix) - 1;
    if (v < m) { o.push_back(bits | (uint8_t)v); return; }
    o.push_back(bits | (uint8_t)m); v -= m;
    while (v >= 128) { o.push_back((uint8_t)(v % 128 + 128)); v /= 128; }
    o.push_back((uint8_t)v);
}
inline void putStr(std::vector<uint8_t>& o, const std::string& s) { putInt(o, 0, 7, (uint32_t)s.size()); o.insert(o.end(), s.begin(), s.end()); }
inline void putLiteral(std::vector<uint8_t>& o, const std::string& n, const std::string& v, uint8_t kind = 0x00) { o.push_back(kind); putStr(o, n); putStr(o, v); }
inline bool sameStr(const std::string& a, const char* p, size_t n) {
    if (a.size() != n) return false;
    unsigned diff = 0;
    for (size_t i = 0; i < n; ++i) diff |= (unsigned)(uint8_t)(a[i] ^ p[i]);
    return diff == 0;
}
inline bool sameStr(const std::string& a, const std::string& b) { return sameStr(a, b.data(), b.size()); }
}  // namespace ref
