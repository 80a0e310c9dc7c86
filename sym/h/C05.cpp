//@ py: K = {"all1":(0,1),"all2":(0,2)}
//@ cases-quick: [("free1", [0,1,2]), ("free2_t0", [0,2,0]), ("free2_t2", [0,2,2])] + [(f"multi_{nm}_t{t}", [1,p,t]) for nm, p in (("indexed",0xff),("inc",0x7f),("noidx",0x0f),("never",0x1f)) for t in (0,3,70)] + [("size_t3",[2,0x3f,3]), ("size_short_t3",[2,0x20,3])] + [(f"lit{n}_{k:02x}", [3,n,k]) for k in (0x40,0x00,0x10) for n in (4,6)] + [("litname_t2",[4,4,2]), ("after_inc",[5,0x40,1]), ("after_noidx",[5,0x00,1]), ("after_never",[5,0x10,1]), ("trunc",[6,0,0]), ("blocks",[7,0,2]), ("evict",[8,0,0]),("ops4",[10,4,0]),("middle",[11,6,0])] + [(f"intlen_{k}",[9,k,0]) for k in range(4)]
//@ cases-thorough: [("free1", [0,1,2]), ("free2_t0", [0,2,0]), ("free2_t2", [0,2,2]), ("free3_t1", [0,3,1])] + [(f"multi_{nm}_t{t}", [1,p,t]) for nm, p in (("indexed",0xff),("inc",0x7f),("noidx",0x0f),("never",0x1f)) for t in (0,3,70,200)] + [("size_t3",[2,0x3f,3]), ("size_t40",[2,0x3f,40]), ("size_short_t3",[2,0x20,3])] + [(f"lit{n}_{k:02x}", [3,n,k]) for k in (0x40,0x00,0x10) for n in range(3,10)] + [("litname_t2",[4,4,2]), ("litname_t3",[4,5,3]), ("after_inc",[5,0x40,2]), ("after_noidx",[5,0x00,2]), ("after_never",[5,0x10,2]), ("trunc",[6,0,0]), ("blocks",[7,0,5]), ("evict",[8,0,0]),("ops5",[10,5,0]),("middle",[11,9,0])] + [(f"intlen_{k}",[9,k,0]) for k in range(4)]
//@ bounds: header blocks of up to 2 (quick) / 3 (thorough) wholly arbitrary bytes over dynamic tables of 0..2 entries; every multi-byte index (two arbitrary continuation bytes) in each of the four representations over tables of 0, 3, 70 (and 200) entries; every size update of up to three continuation bytes; literals of 4..6 (quick) / 3..9 (thorough) arbitrary bytes; any index after an insertion; every truncation of a block using all representations; two blocks over one connection; every history of four (quick) / five (thorough) of twelve operations (insertions, also repeated ones, references, size changes); integers with up to six continuation bytes; any size update after up to six / nine fields of one block, with references after it in the same block and the next
//@ outside: longer wholly arbitrary blocks: the decoder's state between two fields is its table and the header list, which the histories cover
//@ reach: accepted refused
//@ sources: lib/hpack/
// C05: header blocks against an RFC 7541 reference decoder: headers and table, or an error.
#include <ionsym.h>
#include "hpack/header_block_decoder.h"
#include "../ref/hpack_ref.h"
using namespace ion;
static DynamicTable* t;
static HeaderBlockDecoder* dec;
static ref::Table rt{65536};
static bool alive = true;
static void sameTable() {
    sym_assert(t->count() == rt.e.size(), "the dynamic table holds as many entries as RFC 7541 prescribes");
    sym_assert((size_t)t->size() == rt.size, "the dynamic table's size is the one RFC 7541 prescribes");
    for (size_t i = 0; i < rt.e.size() && i < t->count(); ++i) {
        HttpHeader h = t->get(i);
        sym_assert(ref::sameStr(h.name, rt.at(i).first) && ref::sameStr(h.value, rt.at(i).second), "the dynamic table's entries are those RFC 7541 prescribes");
    }
}
// the block lives in an allocation of exactly its size, so that a read past its end is seen
static void block(const std::vector<uint8_t>& b) {
    if (!alive) return;
    uint8_t* raw = new uint8_t[b.size()];
    __builtin_memcpy(raw, b.data(), b.size());
    auto r = dec->decode(std::span<const uint8_t>(raw, b.size()));
    std::vector<ref::Header> want;
    bool ok = ref::blockDecode(b.data(), b.size(), rt, want);
    if (ok) {
        sym_assert(r.has_value(), "a valid header block is accepted");
        if (r) {
            sym_assert(r->size() == want.size(), "as many headers are produced as the block has fields");
            for (size_t i = 0; i < want.size() && i < r->size(); ++i)
                sym_assert(ref::sameStr((*r)[i].name, want[i].first) && ref::sameStr((*r)[i].value, want[i].second), "each header is the one RFC 7541 prescribes");
            sameTable();
            for (auto& h : *r) { sym_observe("name", h.name.data(), h.name.size()); sym_observe("value", h.value.data(), h.value.size()); }
        }
        sym_reach("accepted");
    } else {
        sym_assert(!r.has_value(), "a malformed header block is refused");
        sym_reach("refused");
    }
    alive = ok && r.has_value();
    delete[] raw;
}
static uint8_t sb() { return sym_val<uint8_t>("byte"); }
static void fill(size_t n) {
    std::vector<uint8_t> b;
    for (size_t i = 0; i < n; ++i) {
        std::string nm = "n" + std::to_string(i);
        ref::putLiteral(b, nm, "val" + std::to_string(i * 7), 0x40);
    }
    if (n) block(b);
}
int harness_main() {
    t = new DynamicTable{};
    dec = new HeaderBlockDecoder{*t};
    int mode = (int)sym_param(0);
    uint64_t p = (uint64_t)sym_param(1), q = (uint64_t)sym_param(2);
    std::vector<uint8_t> b;
    switch (mode) {
        case 0:
            fill(q);
            for (size_t i = 0; i < p; ++i) b.push_back(sb());
            block(b);
            break;
        case 1: {
            fill(q);
            b = {(uint8_t)p, sb(), sb()};
            if (b[1] & 0x80) sym_assume((b[2] & 0x80) == 0); else b.resize(2);
            if (p != 0xff) { b.push_back(1); b.push_back(sb()); }
            block(b);
            block({0xbe});
            break;
        }
        case 2:
            fill(q);
            if (p == 0x3f) { b = {0x3f, sb(), sb(), sb()}; if (!(b[1] & 0x80)) b.resize(2); else if (!(b[2] & 0x80)) b.resize(3); }
            else { b = {sb()}; sym_assume((b[0] & 0xe0) == 0x20 && b[0] != 0x3f); }
            block(b);
            if (sym_bool("references first")) { block({0xbe}); block({0xbf}); }
            { std::vector<uint8_t> c; ref::putLiteral(c, "fresh", "entry", 0x40); block(c); }
            block({0xbe});
            block({0xbf});
            break;
        case 3:
            b.push_back((uint8_t)q);
            for (size_t i = 1; i < p; ++i) b.push_back(sb());
            sym_assume((b[1] & 0x80) == 0);
            { size_t v = 2 + b[1]; if (v < p) { v = sym_concretize(v); sym_assume((b[v] & 0x80) == 0 && v + 1 + b[v] + 1 >= p); } }
            // what follows the first literal, if anything, is one more field
            block(b);
            break;
        case 4: {   // any index of any literal representation, any value
            fill(q);
            uint8_t f = sb();
            sym_assume((f & 0x80) == 0 && (f & 0xe0) != 0x20);
            b.push_back(f);
            for (size_t i = 1; i < p; ++i) b.push_back(sb());
            sym_assume((b[1] & 0x80) == 0 && (b[1] == p - 2 || b[1] == p - 1));
            block(b);
            break;
        }
        case 5: {   // a literal of one representation, then any one-byte index
            fill(q);
            ref::putLiteral(b, "some-name", "some-value", (uint8_t)p);
            uint8_t f = sb();
            sym_assume(f & 0x80);
            b.push_back(f);
            block(b);
            block({0xbe});
            break;
        }
        case 6: {
            ref::putLiteral(b, "alpha", "one", 0x40);
            b.push_back(0xbe);                          // the entry just added
            ref::putLiteral(b, "beta", "two", 0x10);
            b.push_back(0x82);
            b.insert(b.end(), {0x3f, 0xe1, 0x1f});      // table size 4096
            b.push_back(0x0f); b.push_back(0x2f);       // name index 62
            b.push_back(0x02); b.push_back('x'); b.push_back('y');
            b.insert(b.end(), {0x41, 0x8c, 0xf1, 0xe3, 0xc2, 0xe5, 0xf2, 0x3a, 0x6b, 0xa0, 0xab, 0x90, 0xf4, 0xff});   // :authority www.example.com
            b.insert(b.end(), {0xff, 0x80, 0x00});      // index 127 + 0: outside
            size_t n = (size_t)sym_choose(b.size() + 1, "length");
            b.resize(n);
            block(b);
            break;
        }
        case 7: {
            fill(q);
            std::vector<uint8_t> c;
            c.push_back(sb());
            ref::putStr(c, "w");
            sym_assume((c[0] & 0x80) == 0 && (c[0] & 0xe0) != 0x20 && (c[0] & 0x0f) != 0 && ((c[0] & 0xc0) == 0x40 ? (c[0] & 0x3f) < 0x3f : (c[0] & 0x0f) < 0x0f));
            block(c);
            std::vector<uint8_t> d;
            uint8_t f = sb(); sym_assume(f >= 0xbc && f <= 0xc8);
            d.push_back(f); d.push_back(0xbe);
            block(d);
            break;
        }
        case 8: {   // a table of 80 bytes: two small entries fit, a third evicts, a large one empties it
            b = {0x3f, 0x31};
            block(b);
            std::vector<uint8_t> c;
            size_t n = (size_t)sym_choose(60, "value length");
            ref::putLiteral(c, "a", "b", 0x40);
            ref::putLiteral(c, "c", "d", 0x40);
            ref::putLiteral(c, "e", std::string(n, 'z'), 0x40);
            block(c);
            block({0xbe});
            block({0xbf});
            break;
        }
        case 10:     // any short history: equal and similar entries, references, sizes
            for (uint64_t i = 0; i < p && alive; ++i) {
                b.clear();
                switch (sym_choose(12, "operation")) {
                    case 0: ref::putLiteral(b, "a", "1", 0x40); break;
                    case 1: ref::putLiteral(b, "a", "2", 0x40); break;
                    case 2: ref::putLiteral(b, "b", "1", 0x40); break;
                    case 3: b.push_back(0xbe); break;
                    case 4: b.push_back(0xbf); break;
                    case 5: b = {0x7e, 0x01, '3'}; break;       // name of the newest entry
                    case 6: b = {0x3f, 0x26}; break;            // 69 bytes: two entries
                    case 7: b = {0x3f, 0xe1, 0x1f}; break;      // 4096
                    case 9: b = {0x20}; break;                  // 0
                    case 10: b = {0x3f, 0xe1, 0xff, 0x03}; break;       // 65536
                    case 11: ref::putLiteral(b, "c", "a value of forty bytes or even more, 12345", 0x40); break;
                    case 8: b = {0x48, 0x03, '2', '0', '0'}; break;     // :status again, though the static table has it
                }
                block(b);
            }
            if (alive) { block({0xbe}); }
            break;
        case 11: {  // a size update anywhere in a block
            size_t n = (size_t)sym_choose(p + 1, "fields before");
            for (size_t i = 0; i < n; ++i) if (i % 3 == 2) b.push_back(0x82); else ref::putLiteral(b, "k" + std::to_string(i), "v", 0x40);
            static const std::vector<uint8_t> up[] = {{0x20}, {0x21}, {0x3f, 0x05}, {0x3f, 0x43}, {0x3f, 0xe1, 0x1f}};
            auto& u = up[sym_choose(5, "update")];
            b.insert(b.end(), u.begin(), u.end());
            std::vector<uint8_t> c;
            if (sym_bool("same block")) { if (sym_bool("insert")) ref::putLiteral(b, "w", "x", 0x40); uint8_t f = sb(); sym_assume(f >= 0xbe && f < 0xc6); b.push_back(f); block(b); }
            else { block(b); uint8_t f = sb(); sym_assume(f >= 0xbe && f < 0xc6); c.push_back(f); block(c); }
            block({0xbe});
            break;
        }
        case 9: {   // overlong and overflowing integers in each representation
            static const uint8_t pre[4] = {0xff, 0x7f, 0x3f, 0x0f};
            b.push_back(pre[p]);
            for (int i = 0; i < 6; ++i) b.push_back(sb());
            for (int i = 0; i < 4; ++i) sym_assume(b[1 + i] & 0x80);
            block(b);
            break;
        }
    }
    return 0;
}
