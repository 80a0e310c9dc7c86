//@ cases-quick: [(f"index_{n}", [0,n,0]) for n in (0,1,2,3,63,64,65,66,67,110,123,124,125,126,190)] + [(f"size_{n}", [1,n,0]) for n in range(0,7)] + [(f"any_{a}{b}_{n}", [2,a*10+b,n]) for a, b in ((1,1),(1,2),(2,1)) for n in (1,2,3)] + [("static",[3,0,0])] + [(f"conn_{n}", [4,n,0]) for n in (1,20,50,80,100,130)] + [("conn_big",[5,0,0]),("conn_err",[6,0,0])] + [(f"name_{n}", [7,n,0]) for n in (1,2,63,66,67,124)] + [(f"len_{b}_{k}", [8,b,k]) for b in range(5) for k in range(4)]
//@ cases-thorough: [(f"index_{n}", [0,n,0]) for n in list(range(0,6))+list(range(60,72))+list(range(105,131))+[180,187,188,189,190,250]] + [(f"size_{n}", [1,n,0]) for n in range(0,7)] + [(f"any_{a}{b}_{n}", [2,a*10+b,n]) for a in (0,1,2) for b in (0,1,2) for n in (1,2,3,4) if a+b<4] + [("static",[3,0,0])] + [(f"conn_{n}", [4,n,0]) for n in (1,5,20,35,50,64,66,80,90,100,115,130,160)] + [("conn_big",[5,0,0]),("conn_err",[6,0,0])] + [(f"name_{n}", [7,n,0]) for n in list(range(0,6))+list(range(60,72))+[122,123,124,125,130]] + [(f"len_{b}_{k}", [8,b,k]) for b in range(5) for k in range(6)]
//@ bounds: a table filled by 15 (quick) / 50 (thorough) different numbers of distinct entries (up to several times its capacity of 124), then a reference to any earlier entry, in full or by name with an arbitrary value byte, twice; entry sizes at and around the table size, and 65536 bytes larger; a name or value of 24 / 36 lengths from 3 to 4020 in each way of sending a field, among others and repeated; up to 3 / 4 headers whose names and values are arbitrary strings of up to 2 bytes; all static entries; over a connection: responses with 1..130 / 160 distinct headers, repeated and re-referenced, mixed with 404, 500 and 400 responses
//@ outside: peers that lower SETTINGS_HEADER_TABLE_SIZE; longer arbitrary strings (C03 decides string coding on its own)
//@ reach: indexed literal evicted
//@ engine: --path-steps 150000000
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C06: what a conforming decoder with a 4096-byte table reads is what was sent.
#include "../env/conn.h"
#include "hpack/header_static_table.h"
using namespace env;
using List = std::vector<HttpHeader>;
static ref::Table peer{4096};
static void readBack(const Bytes& b, const List& want) {
    std::vector<ref::Header> got;
    sym_assert(ref::blockDecode(b.data(), b.size(), peer, got, {1 << 20, 1 << 20}), "a conforming peer can decode the block");
    sym_assert(got.size() == want.size(), "the peer reads as many headers as were sent");
    for (size_t i = 0; i < want.size(); ++i) {
        sym_assert(ref::sameStr(got[i].first, want[i].name), "the peer reads the name that was sent");
        sym_assert(ref::sameStr(got[i].second, want[i].value), "the peer reads the value that was sent");
    }
    if (!b.empty() && (b[0] & 0x80)) sym_reach("indexed"); else sym_reach("literal");
}
static std::string any(size_t n, const char* nm) { std::string s(n, 0); if (n) sym_make(s.data(), n, nm); return s; }
static size_t pick(size_t n) {      // an earlier entry: any of them when few, else the ones around the edges
    if (n <= 6) return (size_t)sym_choose(n, "entry");
    std::vector<size_t> v;
    for (size_t d : {0ul, 1ul, 2ul, 3ul, 63ul, 64ul, 65ul, 66ul, 67ul, 121ul, 122ul, 123ul, 124ul, n / 2, n - 2, n - 1}) if (d < n) v.push_back(n - 1 - d);
    return v[(size_t)sym_choose(v.size(), "entry")];
}
int harness_main() {
    int mode = (int)sym_param(0), n = (int)sym_param(1), m = (int)sym_param(2);
    if (mode < 4 || mode >= 7) {
        DynamicTable t{4096};
        HeaderBlockEncoder e{t};
        auto send = [&](const List& l) { readBack(e.encode(l), l); };
        auto entry = [&](int i) -> HttpHeader {     // 33 bytes: 124 of them fill the table
            if (i < 256 - 'a') return {std::string(1, (char)('a' + i)), ""};
            return {std::string(1, 'z') + (char)('a' + i % 26) + (char)('a' + i / 26 % 26), ""};
        };
        switch (mode) {
            case 0: case 7: {
                List all;
                for (int i = 0; i < n; ++i) all.push_back(entry(i));
                for (size_t i = 0; i < all.size(); i += 16) send(List(all.begin() + i, all.begin() + (i + 16 < all.size() ? i + 16 : all.size())));
                if (n > 124) sym_reach("evicted");
                for (int k = 0; k < 2; ++k) {
                    HttpHeader h{"new", "entry"};
                    if (n) h = all[pick(n)];
                    if (mode == 7) h.value = any(1, "value");
                    send({h});
                    if (k == 0) send({{":status", "200"}, h, {"fresh" + std::to_string(k), "v"}});
                }
                if (n) send({all[n - 1], all[0], {all[n / 2].name, "other"}, all[n - 1]});
                break;
            }
            case 1: {
                size_t big = 4096 - 32 - 5;
                static const int d[] = {-2, -1, 0, 1, 2, 40, 65536 - 4049};
                send({{"first", "v"}, {"x", "y"}});
                std::string v(big + d[n] , 'q'); v[0] = (char)sym_val<uint8_t>("value");
                send({{"large", v}});
                if (n == 6) { send({{"first", "v"}, {"x", "y"}}); break; }      // it emptied the peer's table
                send({{"first", "v"}, {"large", v}});
                send({{"large", v}, {"large", "w"}, {"x", "y"}, {"first", "v"}});
                send({{"half1", std::string(2000, 'a')}, {"half2", std::string(2000, 'b')}, {"half3", std::string(2000, 'c')}, {"half2", std::string(2000, 'b')}, {"half1", "z"}});
                sym_reach("evicted");
                break;
            }
            case 2: {
                List l;
                for (int i = 0; i < m; ++i) l.push_back({any(n / 10, "name"), any(n % 10, "value")});
                for (auto& h : l) send({h});
                send({l[0], {"x-new", "1"}, l[m - 1]});
                break;
            }
            case 8: {       // n: how the long field is sent
                static const size_t len[6][6] = {{3, 4, 100, 126, 127, 128}, {129, 254, 255, 256, 257, 511}, {513, 1000, 1024, 1025, 2000, 2047}, {2048, 2049, 3000, 3900, 4000, 4020}, {64, 200, 300, 400, 600, 800}, {512, 1023, 1500, 2500, 3500, 4010}};
                size_t L = len[m][sym_choose(6, "length")];
                std::string big(L, 'q');
                if (L == 100) big[L / 2] = (char)sym_val<uint8_t>("byte");
                List l;
                switch (n) {
                    case 0: l = {{"content-type", big}}; break;                                 // static name
                    case 1: send({{"known", "x"}}); l = {{"known", big}}; break;                // dynamic name
                    case 2: l = {{"brand-new", big}}; break;
                    case 3: l = {{big, "short"}}; break;                                        // the name is the long one
                    case 4: l = {{":status", big}, {"date", "x"}}; break;
                }
                send({{"first", "v"}});
                send(l);
                send({{"first", "v"}, l[0], {"second", "w"}});
                send({{"second", "w"}, {l[0].name, "z"}, {"first", "v"}, l[0]});
                break;
            }
            case 3: {
                List l;
                for (auto& h : STATIC_TABLE) l.push_back({std::string(h.name), std::string(h.value)});
                send(l);
                for (auto& h : l) h.value = "x";
                send(l);
                send({l[0], l[30], l[60]});
                size_t k = (size_t)sym_choose(l.size(), "static");
                send({{l[k].name, any(1, "value")}, l[k]});
                break;
            }
        }
        sym_assert((size_t)t.size() <= 4096, "the encoder's table stays within the peer's");
        return 0;
    }
    Session s;
    List many;
    for (int i = 0; i < n; ++i) many.push_back({"x-header-" + std::to_string(i), "value " + std::to_string(i * 7)});
    auto fix = [](const std::vector<HttpHeader>& l, uint16_t st, size_t body) {
        List w = l;
        w.insert(w.begin(), {":status", std::to_string(st)});
        if (body) w.push_back({"content-length", std::to_string(body)});
        return w;
    };
    std::vector<List> want;
    Bytes all = preface();
    uint32_t sid = 1;
    auto ask = [&](const std::string& path, const List& w) { add(all, request(sid, path)); sid += 2; want.push_back(w); };
    if (mode == 4) {
        List half(many.begin(), many.begin() + n / 2);
        int k = (int)pick(n);
        List one{many[k], {many[k].name, any(1, "value")}, {"set-cookie", "k=" + std::to_string(k)}};
        s.capture("/many", "GET", {200, {}, many}); s.capture("/half", "GET", {200, {1}, half}); s.capture("/one", "GET", {302, {}, one});
        for (int r = 0; r < 2; ++r) { ask("/many", fix(many, 200, 0)); ask("/one", fix(one, 302, 0)); ask("/half", fix(half, 200, 1)); ask("/one", fix(one, 302, 0)); }
        if (n > 60) sym_reach("evicted");
    } else if (mode == 5) {
        List big{{"x-big", std::string(4000, 'b')}}, big2{{"x-big", std::string(4200, 'c')}}, small{{"x-small", "1"}};
        s.capture("/big", "GET", {200, {}, big}); s.capture("/big2", "GET", {200, {}, big2}); s.capture("/small", "GET", {200, {}, small});
        for (int i = 0; i < 4; ++i) switch (sym_choose(3, "which")) {
            case 0: ask("/big", fix(big, 200, 0)); break;
            case 1: ask("/big2", fix(big2, 200, 0)); break;
            case 2: ask("/small", fix(small, 200, 0)); break;
        }
        ask("/small", fix(small, 200, 0));
    } else {
        List l{{"x-a", "1234567"}, {"x-b", any(1, "value")}};
        s.capture("/l", "GET", {200, {}, l});
        s.r.add_route("/boom", "GET", [](const HttpRequest&) -> HttpResponse { throw std::runtime_error("x"); });
        for (int i = 0; i < 4; ++i) switch (sym_choose(4, "which")) {
            case 0: ask("/l", fix(l, 200, 0)); break;
            case 1: ask("/boom", fix({}, 500, 0)); break;
            case 2: ask("/none", fix({}, 404, 0)); break;
            case 3: add(all, frame(1, 5, sid, {0x82})); sid += 2; want.push_back(fix({}, 400, 0)); break;
        }
        ask("/l", fix(l, 200, 0));
    }
    s.open();
    s.give(all);
    Out o(s.w.out);
    size_t i = 0;
    for (auto& f : o.f) if (f.type == 1) {
        sym_assert(i < want.size(), "one block per request");
        std::vector<ref::Header> got;
        sym_assert(ref::blockDecode(f.p.data(), f.p.size(), peer, got, {1 << 20, 1 << 20}), "a conforming peer can decode the block");
        size_t k = 0;
        auto ours = [](const std::string& n) { return n.empty() || n[0] == ':' || n.rfind("x-header", 0) == 0 || n == "x-a" || n == "x-b" || n == "x-big" || n == "x-small" || n == "set-cookie"; };
        for (auto& h : want[i]) {       // the application's headers, in order; the server may add its own
            while (k < got.size() && !(ref::sameStr(got[k].first, h.name) && ref::sameStr(got[k].second, h.value))) { sym_assert(!ours(got[k].first), "no header is altered"); ++k; }
            sym_assert(k < got.size(), "the peer reads every header as supplied, in order");
            ++k;
        }
        for (; k < got.size(); ++k) sym_assert(!ours(got[k].first), "no header appears from nowhere");
        ++i;
    }
    sym_assert(i == want.size() && !s.over, "every response arrives");
    sym_reach("indexed"); sym_reach("literal"); 
    return 0;
}
