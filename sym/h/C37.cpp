//@ py: M = range(4); FQ = [(2,8),(4,9),(4,2),(6,4),(7,5),(10,10),(10,7),(12,9),(14,16),(16,1),(17,7),(19,5)]
//@ cases-quick: [(f"values_{f}_{k}_{n}", [0,f,k,n]) for f in range(3) for k, n in ((0,0),(1,1),(2,2))] + [(f"order{n}", [1,n,0,0]) for n in (1,2)] + [(f"raw{n}", [2,n,0,0]) for n in (1,)] + [(f"history{k}", [3,k,0,0]) for k in (1,2,3)] + [("padding",[4,0,0,0]),("priority",[4,1,0,0]),("both",[4,2,0,0]),("flags",[4,3,0,0])] + [(f"long{n}", [5,n,0,0]) for n in (126,127,128,254,255,4095,4096)] + [(f"many{n}", [6,n,0,0]) for n in (20,60,100,130,260)] + [("huffman",[7,2,0,0]),("twins",[10,0,0,0]),("between",[8,0,0,0])] + [(f"field{n}_{m}", [9,n,m,0]) for n, m in FQ]
//@ cases-thorough: [(f"values_{f}_{k}_{n}", [0,f,k,n]) for f in range(3) for k in range(4) for n in range(4)] + [(f"order{n}", [1,n,0,0]) for n in (0,1,2)] + [(f"raw{n}", [2,n,0,0]) for n in (1,2,3)] + [(f"history{k}", [3,k,0,0]) for k in (1,2,3,4)] + [("padding",[4,0,0,0]),("priority",[4,1,0,0]),("both",[4,2,0,0]),("flags",[4,3,0,0])] + [(f"long{n}", [5,n,0,0]) for n in (126,127,128,254,255,256,1000,4095,4096)] + [(f"many{n}", [6,n,0,0]) for n in (20,60,63,64,65,100,128,200,255,256,257,600)] + [(f"huffman{n}",[7,n,0,0]) for n in (1,2,3)] + [("between",[8,0,0,0]),("twins",[10,0,0,0])] + [(f"field{n}_{m}", [9,n,m,0]) for n in range(1,25) for m in (0,1,2,4,7,8,10)]
//@ bounds: methods and paths of arbitrary bytes (up to 2, thorough 3, each) in every literal form; further fields with arbitrary names and values, also of 12 (thorough 168) pairs of lengths up to 19 and 16 (24 and 10); every order of five fields; equal and similar fields of the names of the static table, side by side and apart; every block of a request followed by up to 1 (thorough 3) arbitrary bytes; up to three (thorough four) requests that index fields and refer to them by every index; every padding length, priority field and flag byte; values and paths around every length boundary up to 4096 bytes; up to 260 (thorough 600) fields; Huffman-coded values
//@ outside: requests that name :method or :path more than once; request bodies (the server ignores DATA)
//@ reach: delivered refused
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C37: what a handler receives is exactly what the client sent.
#include "../env/conn.h"
using namespace env;
static std::vector<std::vector<ref::Header>> want;
static ref::Table table{4096};
static std::vector<size_t> ignore;
static std::string text(size_t n, const char* what) { std::string s(n, 'x'); if (n) sym_make(s.data(), n, what); return s; }
// the request as a peer that follows RFC 7541 means it; false when its block is malformed
static bool expect(const Bytes& block) {
    std::vector<ref::Header> h;
    if (!ref::blockDecode(block.data(), block.size(), table, h)) return false;
    want.push_back(h);
    return true;
}
static void check(Session& s, bool ok) {
    sym_assert(s.over == !ok, "the connection lasts exactly as long as its header blocks are sound");
    std::vector<size_t> complete;
    for (size_t i = 0; i < want.size(); ++i) {
        bool m = false, p = false;
        for (auto& h : want[i]) { m |= h.first == ":method"; p |= h.first == ":path"; }
        if (m && p) complete.push_back(i);
    }
    sym_assert(s.seen.size() == complete.size(), "every complete request reaches a handler, once");
    for (size_t k = 0; k < complete.size(); ++k) {
        auto& w = want[complete[k]]; auto& q = s.seen[k];
        const std::string *m = nullptr, *p = nullptr;
        for (auto& h : w) { if (!m && h.first == ":method") m = &h.second; if (!p && h.first == ":path") p = &h.second; }
        sym_assert(ref::sameStr(q.method, *m), "the handler sees the method sent");
        sym_assert(ref::sameStr(q.path, *p), "the handler sees the path sent");
        sym_assert(q.headers.size() == w.size(), "the handler sees every field and no other");
        for (size_t j = 0; j < w.size(); ++j) sym_assert(ref::sameStr(q.headers[j].name, w[j].first) && ref::sameStr(q.headers[j].value, w[j].second), "the fields are those sent, in the order sent");
        sym_reach("delivered");
    }
    if (!ok) sym_reach("refused");
}
int harness_main() {
    int mode = (int)sym_param(0); size_t a = (size_t)sym_param(1), b = (size_t)sym_param(2), n = (size_t)sym_param(3);
    Session s;
    s.r.add_middleware([&s](RouteHandler next) { return [&s, next](const HttpRequest& q) { s.seen.push_back({q.method, q.path, q.headers}); return next(q); }; });
    s.r.add_route("/r", "GET", [](const HttpRequest&) { return HttpResponse{200, {'x'}}; });
    s.open();
    s.give(preface());
    bool ok = true;
    auto send = [&](const Bytes& block, uint32_t sid = 1) { ok = ok && expect(block); s.give(frame(1, 5, sid, block)); };
    static const uint8_t kinds[] = {0x00, 0x10, 0x40};
    switch (mode) {
        case 0: {       // literals of every form, names spelt out or indexed
            uint8_t kind = kinds[a];
            Bytes k;
            if (b % 2) { ref::putLiteral(k, ":method", text(n, "method"), kind); ref::putLiteral(k, ":path", text(b, "path"), kind); }
            else { ref::putInt(k, kind, a == 2 ? 6 : 4, 2); ref::putStr(k, text(n, "method")); ref::putInt(k, kind, a == 2 ? 6 : 4, 4); ref::putStr(k, text(b, "path")); }
            std::string name = text(b, "name");
            sym_assume(!name.size() || name[0] != ':');
            ref::putLiteral(k, name, text(n, "value"), kind);
            ref::putInt(k, kind, a == 2 ? 6 : 4, 32); ref::putStr(k, text(n, "cookie"));
            send(k);
            break;
        }
        case 10: {      // a field sent twice, or nearly, is received twice
            uint64_t which = sym_choose(48, "name");           // a name of the static table, or one of its own
            Bytes k = {0x82, 0x84};
            std::string v = text(1, "value"), w = sym_bool("same") ? v : text(2, "other");
            auto put = [&](const std::string& x) { if (which == 0) ref::putLiteral(k, "x-own", x, 0x10); else { ref::putInt(k, 0x40, 6, 14 + which); ref::putStr(k, x); } };
            put(v); put(v); if (sym_bool("apart")) ref::putLiteral(k, "x-b", "c", 0x00); put(w);
            send(k);
            break;
        }
        case 1: {       // the order of the fields
            ref::Header f[5] = {{":method", "GET"}, {":path", "/r"}, {"x-a", text(a, "value")}, {"x-a", text(a, "value")}, {":authority", text(a, "host")}};
            bool used[5]{};
            Bytes k;
            for (int i = 0; i < 5; ++i) {
                uint8_t c = (uint8_t)sym_choose((uint64_t)(5 - i), "next");
                int j = -1;
                do { do ++j; while (used[j]); } while (c--);
                used[j] = true;
                ref::putLiteral(k, f[j].first, f[j].second);
            }
            send(k);
            break;
        }
        case 2: {       // anything at all after the pseudo-header fields
            Bytes k = {0x82, 0x84};
            Bytes raw(a); sym_make(raw.data(), a, "raw");
            add(k, raw);
            send(k);
            if (!s.over) send({0x82, 0x04, 2, '/', 'r'}, 3);
            break;
        }
        case 3: {       // fields remembered from request to request
            for (size_t i = 0; i < a && ok; ++i) {
                Bytes k = {0x82};
                ref::putInt(k, 0x40, 6, 4); ref::putStr(k, "/p" + text(1, "path"));
                ref::putLiteral(k, "x-" + std::string(1, (char)('a' + i)), text(1, "value"), 0x40);
                if (i) {
                    uint8_t idx = sym_val<uint8_t>("index");
                    sym_assume(idx >= 55 && idx < 70 && idx != 0);
                    k.push_back(0x80 | idx);
                    uint8_t nm = sym_val<uint8_t>("name index"); sym_assume(nm < 8);
                    k.push_back(0x0f); k.push_back((uint8_t)(62 - 15 + nm)); ref::putStr(k, text(1, "value"));
                }
                send(k, (uint32_t)(2 * i + 1));
            }
            break;
        }
        case 4: {       // framing that is no part of the request
            Bytes block = {0x82}; ref::putInt(block, 0x00, 4, 4); ref::putStr(block, "/" + text(1, "path")); ref::putLiteral(block, "x-a", text(2, "value"));
            uint8_t flags = 5;
            Bytes p;
            uint8_t pad = 0;
            if (a == 0 || a == 2) { pad = sym_val<uint8_t>("padding"); flags |= 8; p.push_back(pad); }
            if (a == 1 || a == 2) { flags |= 0x20; for (int i = 0; i < 5; ++i) p.push_back(sym_val<uint8_t>("priority")); }
            if (a == 3) { flags = sym_val<uint8_t>("flags"); sym_assume((flags & 0x2c) == 4); }
            add(p, block);
            for (uint64_t m = sym_concretize(pad); m; --m) p.push_back(0);
            expect(block);
            uint32_t sid = sym_val<uint32_t>("stream"); sym_assume(sid != 0);
            s.give(frame(1, flags, sid, p));
            send({0x82, 0x84}, 9);
            break;
        }
        case 5: {       // long paths and values
            auto text2 = [&](size_t m) { std::string v(m, 'q'); for (size_t i = 0; i < m; ++i) v[i] = (char)('a' + i % 23); sym_make(&v[m - 1], 1, "last"); sym_make(&v[0], 1, "first"); return v; };
            Bytes k = {0x82}; ref::putInt(k, 0x00, 4, 4); ref::putStr(k, text2(a));
            ref::putLiteral(k, text2(a), text2(a), 0x40); if (a < 4000) ref::putLiteral(k, "x", text2(a), 0x10);
            send(k);
            Bytes k2 = {0x82, 0x84, 0xbe};
            if (a < 2000) send(k2, 3);
            break;
        }
        case 6: {       // many fields
            Bytes k = {0x82, 0x84};
            for (size_t i = 0; i < a; ++i) ref::putLiteral(k, "h" + std::to_string(i % 7), std::to_string(i) + text(i % 16 == 0, "value"), i % 3 ? 0x00 : 0x40);
            send(k);
            break;
        }
        case 7: {       // Huffman-coded strings
            Bytes raw(a); sym_make(raw.data(), a, "coded");
            Bytes k = {0x82, 0x04, (uint8_t)(0x80 | a)}; add(k, raw);
            k.push_back(0x00); k.push_back(0x01); k.push_back('n'); k.push_back((uint8_t)(0x80 | a)); add(k, raw);
            send(k);
            break;
        }
        case 9: {       // fields of given lengths, any name but a pseudo-header's, any value
            Bytes k = {0x82, 0x84};
            std::string name = text(a, "name"), value = text(b, "value");
            if (a) sym_assume(name[0] != ':');
            ref::putLiteral(k, name, value, 0x00); ref::putLiteral(k, "x-a", "b", 0x00); ref::putLiteral(k, name, value, 0x10);
            send(k);
            break;
        }
        case 8: {       // other frames in between leave requests alone
            Bytes k; ref::putLiteral(k, ":method", "PUT", 0x40); ref::putLiteral(k, ":path", "/" + text(1, "path"), 0x40);
            send(k);
            uint8_t t = sym_val<uint8_t>("type"); sym_assume(t != 1 && t != 4 && t != 7 && t != 8 && t != 9);
            Bytes junk(4); sym_make(junk.data(), 4, "junk");
            s.give(frame(t, sym_val<uint8_t>("flags"), 1, junk));
            Bytes data(3); sym_make(data.data(), 3, "data");
            s.give(frame(0, 1, 1, data));
            s.give(frame(4, 0, 0, {0, 3, 0, 0, 0, sym_val<uint8_t>("setting")}));
            send({0xbf, 0xbe}, 3);
            send({0xbe, 0xbf}, 5);
            break;
        }
    }
    check(s, ok);
    return 0;
}
