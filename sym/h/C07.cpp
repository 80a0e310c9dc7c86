//@ py: import itertools
//@+ def C(k, big):
//@+     ops = ["I", "M"]
//@+     cs = [("ops_" + "".join(p), [0 if q == "I" else 1 for q in p] + [9]) for n in range(1, k + 1) for p in itertools.product(ops, repeat=n) if p[0] == "I"]
//@+     return cs + [(f"many{n}_max{m}", [5, n, m]) for n, m in big]
//@ cases-quick: C(4, [(20, 330), (70, 4096), (130, 4096), (40, 32*12)]) + [(f"again{n}_max{m}", [6, n, m]) for n in (1, 3, 4, 7) for m in (4096, 110)]
//@ cases-thorough: C(5, [(20, 330), (70, 4096), (130, 4096), (200, 4096), (40, 384), (600, 20000), (2100, 65536)]) + [(f"again{n}_max{m}", [6, n, m]) for n in (1, 2, 3, 4, 5, 7, 12, 30) for m in (65536, 4096, 200, 110, 70)]
//@ bounds: all sequences of up to 4 (quick) / 5 (thorough) insertions and maximum changes, with every initial maximum and every new maximum of 0..65535, names of 0..1 and values of 0..2 bytes (lengths and contents arbitrary); sequences of up to 130 (quick) / 2100 (thorough) insertions with arbitrary contents of one entry and an arbitrary final maximum; one arbitrary entry inserted three times among up to 7 / 30 others, with a change of maximum in between
//@ outside: longer mixed sequences; the state after each operation is a function of entries and maximum only
//@ reach: checked found
//@ sources: lib/hpack/
// C07: dynamic table accounting, eviction and lookup against RFC 7541 section 4.
#include <ionsym.h>
#include "hpack/dynamic_table.h"
#include "../ref/hpack_ref.h"
using namespace ion;
static void same(DynamicTable& t, ref::Table& r) {
    sym_assert(t.count() == r.e.size(), "the table holds exactly the most recent insertions eviction leaves");
    sym_assert((size_t)t.size() == r.size, "the reported size is the sum of the entry sizes");
    sym_assert(r.size <= r.max, "the size does not exceed the maximum");
    for (size_t i = 0; i < r.e.size() && i < t.count(); ++i) {
        HttpHeader h = t.get(i);
        sym_assert(ref::sameStr(h.name, r.at(i).first) && ref::sameStr(h.value, r.at(i).second), "entry i is the i-th newest");
    }
}
static bool eq(const std::string& a, const std::string& b) { return ref::sameStr(a, b); }
static void lookups(DynamicTable& t, ref::Table& r, const HttpHeader& q) {
    auto f = t.find(q); auto g = t.find_name(q.name);
    size_t wf = ~0ull, wg = ~0ull;
    for (size_t i = r.e.size(); i-- > 0;) {
        if (eq(r.at(i).first, q.name)) { wg = i; if (eq(r.at(i).second, q.value)) wf = i; }
    }
    sym_assert(f.has_value() == (wf != ~0ull) && g.has_value() == (wg != ~0ull), "lookup finds a header exactly when it is present");
    if (f && wf != ~0ull) { sym_assert(*f == wf, "lookup returns the lowest matching index"); sym_reach("found"); }
    if (g && wg != ~0ull) sym_assert(*g == wg, "lookup by name returns the lowest matching index");
    uint8_t o[2] = {(uint8_t)(f ? *f : 255), (uint8_t)(g ? *g : 255)};
    sym_observe("lookup", o, 2);
}
static HttpHeader arbitrary() {
    HttpHeader h;
    size_t nl = sym_choose(2, "namelen"), vl = sym_choose(3, "valuelen");
    h.name.resize(nl); h.value.resize(vl);
    if (nl) sym_make(h.name.data(), nl, "name");
    if (vl) sym_make(h.value.data(), vl, "value");
    return h;
}
int harness_main() {
    if (sym_param(0) == 5) {
        size_t n = (size_t)sym_param(1), m = (size_t)sym_param(2);
        DynamicTable t{m}; ref::Table r{m};
        for (size_t i = 0; i < n; ++i) {
            HttpHeader h{std::string("n") + std::to_string(i % 50), std::string(i % 7, (char)('a' + i % 26))};
            if (i == n / 2) h.value = std::string("q") + (char)sym_val<uint8_t>("value");
            t.insert(h); r.insert({h.name, h.value});
        }
        same(t, r);
        lookups(t, r, {"n" + std::to_string((n / 2) % 50), std::string("q") + (char)sym_val<uint8_t>("query")});
        uint32_t nm = sym_val<uint16_t>("newmax");
        t.set_max_table_size(nm); r.setMax(nm);
        same(t, r);
        HttpHeader h{"last", "entry"};
        t.insert(h); r.insert({h.name, h.value});
        same(t, r);
        sym_reach("checked");
        return 0;
    }
    if (sym_param(0) == 6) {        // the same entry again and again
        size_t n = (size_t)sym_param(1), m = (size_t)sym_param(2);
        DynamicTable t{m}; ref::Table r{m};
        auto put = [&](const HttpHeader& h) { t.insert(h); r.insert({h.name, h.value}); same(t, r); };
        HttpHeader x = arbitrary();
        for (size_t i = 0; i < n; ++i) put({std::string(1, (char)('a' + i % 3)), std::string(i % 3, 'v')});
        put(x); put(x);
        lookups(t, r, x);
        uint32_t nm = sym_val<uint8_t>("newmax"); sym_assume(nm <= 200);
        if (sym_bool("change")) { t.set_max_table_size(nm); r.setMax(nm); same(t, r); }
        put(x);
        lookups(t, r, x);
        lookups(t, r, {"a", ""});
        sym_reach("checked"); sym_reach("found");
        return 0;
    }
    size_t m = sym_val<uint16_t>("max");
    DynamicTable t{m}; ref::Table r{m};
    for (int k = 0; sym_param(k) != 9; ++k) {
        if (sym_param(k) == 0) { HttpHeader h = arbitrary(); t.insert(h); r.insert({h.name, h.value}); }
        else { size_t nm = sym_val<uint16_t>("newmax"); t.set_max_table_size(nm); r.setMax(nm); }
    }
    same(t, r);
    HttpHeader q; q.name.resize(1); q.value.resize(1);
    sym_make(q.name.data(), 1, "qname"); sym_make(q.value.data(), 1, "qvalue");
    lookups(t, r, q);
    sym_reach("checked");
    return 0;
}
