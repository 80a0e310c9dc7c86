//@ py: L = [0,1,2,100,16255,16256,16257,16383,16384,16385,32511,32512,32513,32768,32769,49152,65536,81280,81281,100000,131072,1048577,2097153]
//@ cases-quick: [(f"body{n}", [0,n,0]) for n in L] + [(f"status{k}", [1,k,0]) for k in range(4)] + [(f"headers{k}_{n}", [2,k,n]) for k, n in ((1,0),(1,1),(1,3),(2,1),(2,2),(3,1))] + [("dup_headers",[3,0,0])] + [(f"multi{k}", [4,k,0]) for k in (1,2,3,4)] + [(f"upload{k}", [5,k,0]) for k in range(3)] + [("slow40000",[6,40000,0]),("slow20",[6,20,0]),("big_header",[7,0,0])] + [(f"many{k}", [8,k,0]) for k in (7,8,9,16,17,32,33,64,65,100)] + [("block_size",[9,0,0])]
//@ cases-thorough: [(f"body{n}", [0,n,0]) for n in L + [3,127,128,255,256,4095,4096,16000,16127,16128,16129,16382,16386,48767,48768,48769,65535,65537,200000]] + [(f"status{k}", [1,k,0]) for k in range(4)] + [(f"headers{k}_{n}", [2,k,n]) for k in (1,2,3) for n in range(0,5) if k*n<8] + [("dup_headers",[3,0,0])] + [(f"multi{k}", [4,k,0]) for k in (1,2,3,4,5)] + [(f"upload{k}", [5,k,0]) for k in range(3)] + [(f"slow{n}",[6,n,0]) for n in (0,1,20,16384,40000,70000)] + [("big_header",[7,0,0])] + [(f"many{k}", [8,k,0]) for k in (7,8,9,16,17,32,33,64,65,100)] + [("block_size",[9,0,0])]
//@ bounds: every stream id; every status 100..599; bodies of 23 (quick) / 42 (thorough) lengths up to 128 KiB / 200 KB and two over 1 and 2 MiB, around every frame size boundary, with arbitrary bytes at both ends and around each boundary; up to 3 handler headers with arbitrary values of up to 3 / 4 bytes, and 7 to 100 of them; header blocks of 16380 to 16384 bytes; up to 4 / 5 requests on one connection, each on an arbitrary stream with an arbitrary choice among 5 responses; requests with bodies; writes of every size class
//@ outside: response header blocks over 16384 bytes; responses whose handler sets content-length itself; other body lengths
//@ reach: body empty several
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C15: one complete response per request, on its stream, in order.
#include "../env/conn.h"
#include "hpack/header_block_encoder.h"
#include "version.h"
using namespace env;
struct Want { uint32_t sid; HttpResponse r; };
static void expectAll(Session& s, const std::vector<Want>& want) {
    Out o(s.w.out);
    sym_assert(!s.over, "the connection stays open");
    sym_assert(o.whole, "whole frames are sent");
    size_t i = 0;
    ref::Table t{4096};
    auto skip = [&] { while (i < o.f.size() && (o.f[i].type == 4 || o.f[i].type == 8)) ++i; };
    for (auto& w : want) {
        skip();
        sym_assert(i < o.f.size(), "every request gets a response");
        const Frame& h = o.f[i++];
        sym_assert(h.type == 1, "a response begins with HEADERS");
        sym_assert(h.sid == w.sid && !h.reserved, "the response is on the request's stream");
        sym_assert((h.flags & 4) != 0 && (h.flags & ~5) == 0, "HEADERS carries END_HEADERS");
        sym_assert(((h.flags & 1) != 0) == w.r.body.empty(), "HEADERS carries END_STREAM exactly when there is no body");
        std::vector<ref::Header> hd;
        sym_assert(ref::blockDecode(h.p.data(), h.p.size(), t, hd, {1 << 20, 65536}), "the header block decodes");
        sym_assert(!hd.empty() && hd[0].first == ":status" && hd[0].second == std::to_string(w.r.status_code), "the handler's status comes first");
        size_t k = 1, len = 0;
        for (auto& x : w.r.headers) {
            while (k < hd.size() && !(ref::sameStr(hd[k].first, x.name) && ref::sameStr(hd[k].second, x.value))) ++k;
            sym_assert(k < hd.size(), "the handler's headers are all sent, in order");
            ++k;
        }
        for (size_t j = 1; j < hd.size(); ++j) {
            sym_assert(hd[j].first != ":status", "there is one :status");
            if (hd[j].first == "content-length") { ++len; sym_assert(hd[j].second == std::to_string(w.r.body.size()), "content-length equals the body's length"); }
        }
        sym_assert(len == 1 || (len == 0 && w.r.body.empty()), "content-length is present once");
        Bytes body;
        bool end = h.flags & 1;
        while (!end) {
            sym_assert(i < o.f.size(), "the response ends with END_STREAM");
            const Frame& d = o.f[i++];
            sym_assert(d.type == 0 && d.sid == w.sid && !d.reserved && (d.flags & ~1) == 0, "the rest of the response is DATA on its stream");
            sym_assert(d.len > 0 && d.len <= 16384, "DATA frames are non-empty and at most 16384 bytes");
            add(body, d.p);
            end = d.flags & 1;
        }
        sym_assert(same(body, w.r.body), "the DATA payloads are exactly the body");
        sym_reach(w.r.body.empty() ? "empty" : "body");
    }
    skip();
    sym_assert(i == o.f.size(), "nothing but the responses is sent");
    if (want.size() > 1) sym_reach("several");
}
static uint32_t stream() { uint32_t v = sym_val<uint32_t>("stream"); sym_assume(v != 0 && (v >> 31) == 0); return v; }
static Bytes bodyOf(size_t n) {
    Bytes b(n);
    for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(i * 7 + (i >> 8));
    size_t at[] = {0, 16255, 16256, 16383, 16384, 32511, 32512, 32767, 32768, 48767, 48768, 49151, 49152, n ? n - 1 : 0};
    for (size_t a : at) if (a < n) b[a] = sym_val<uint8_t>("byte");
    return b;
}
static size_t slowPiece;
static int64_t slow(Wire& w, std::span<const uint8_t> b) {
    if (w.writes % 3 == 0) return -1 - (int64_t)TransportError::WantReadOrWrite;
    return (int64_t)(b.size() < slowPiece ? b.size() : slowPiece);
}
int harness_main() {
    Session s;
    int mode = (int)sym_param(0); size_t k = (size_t)sym_param(1), n = (size_t)sym_param(2);
    Bytes all = preface();
    add(all, frame(4, 0, 0, {}));
    std::vector<Want> want;
    auto one = [&](HttpResponse r) { uint32_t sid = stream(); s.capture("/r", "GET", r); add(all, request(sid, "/r")); want.push_back({sid, r}); };
    auto text = [&](size_t m, const char* nm) { std::string v(m, 'x'); if (m) sym_make(v.data(), m, nm); return v; };
    switch (mode) {
        case 0: one({200, bodyOf(k), {{"content-type", "text/plain"}}}); break;
        case 1: {
            uint16_t st = sym_val<uint16_t>("status"); sym_assume(st >= 100 && st <= 599);
            if (k == 0) one({st}); else if (k == 1) one({st, {1, 2, 3}}); else if (k == 2) one({st, {}, {{"location", "/x"}}});
            else { one({st, {9}}); add(all, request(77, "/r")); want.push_back({77, want[0].r}); }
            break;
        }
        case 2: {
            static const char* nm[] = {"x-a", "content-type", "set-cookie"};
            HttpResponse r{200, {5}};
            for (size_t i = 0; i < k; ++i) r.headers.push_back({nm[i], text(n, "value")});
            one(r);
            break;
        }
        case 3: one({200, {}, {{"set-cookie", "a=1"}, {"set-cookie", "b=2"}, {"set-cookie", "a=1"}, {"x", ""}, {"vary", "origin"}, {"server", text(1, "srv")}}}); break;
        case 4: {
            static const uint16_t st[] = {200, 404, 500, 204, 302};
            HttpResponse rs[5];
            for (int i = 0; i < 5; ++i) { rs[i] = {st[i], i == 1 ? Bytes{} : Bytes(i == 2 ? 20000 : i, (uint8_t)('a' + i)), {}}; if (i > 2) rs[i].headers = {{"x-h", std::string(6, (char)('p' + i))}}; s.capture("/" + std::to_string(i), "GET", rs[i]); }
            uint32_t prev = 0;
            for (size_t i = 0; i < k; ++i) {
                uint32_t sid = stream(); sym_assume(sid > prev); prev = sid;
                size_t c = k > 3 && i < 2 ? 2 * i : (size_t)sym_choose(5, "which");
                add(all, request(sid, "/" + std::to_string(c)));
                want.push_back({sid, rs[c]});
                if (i % 2) add(all, frame(8, 0, sid, {0, 0, 1, 0}));
            }
            break;
        }
        case 5: {      // a request with a body: one response all the same
            HttpResponse r{201, {'o', 'k'}};
            s.capture("/u", "POST", r);
            uint32_t sid = stream();
            add(all, frame(1, 4, sid, reqBlock("POST", "/u")));
            Bytes d(k == 2 ? 16384 : k * 5); if (d.size()) sym_make(d.data(), 4, "upload");
            if (k == 2) add(all, frame(0, 0, sid, d));
            add(all, frame(0, 1, sid, d));
            want.push_back({sid, r});
            add(all, frame(1, 5, 9, reqBlock("POST", "/u")));
            want.push_back({9, r});
            break;
        }
        case 6: {
            slowPiece = 1 + 1000 * (size_t)sym_choose(40, "piece") + (k < 100 ? 0 : 7000);
            if (k < 100) slowPiece = 1 + (slowPiece / 1000);
            s.w.onWrite = slow;
            one({200, bodyOf(k)}); one({404, {}});
            want[1].r = want[0].r;       // same route: the first answers
            break;
        }
        case 8: {
            HttpResponse r{sym_bool("ok") ? (uint16_t)200 : (uint16_t)418, sym_bool("body") ? Bytes{7} : Bytes{}};
            for (size_t i = 0; i < k; ++i) r.headers.push_back({i % 3 ? "x-" + std::to_string(i) : "set-cookie", std::to_string(i * 31)});
            r.headers[k / 2].value = text(1, "value");
            one(r);
            break;
        }
        case 9: {      // the largest blocks one frame can carry
            HttpResponse r{200, {1}};
            for (int i = 0; i < 4; ++i) r.headers.push_back({"x-" + std::to_string(i), std::string(4600, 'q')});
            auto size = [&] { DynamicTable dt{4096}; HeaderBlockEncoder e{dt}; auto l = r.headers; l.insert(l.begin(), {":status", "200"}); l.push_back({"content-length", "1"}); l.push_back({"server", std::string(SERVER_HEADER)}); l.push_back({"x-powered-by", std::string(SERVER_HEADER)}); return e.encode(l).size(); };
            size_t goal = 16380 + (size_t)sym_choose(5, "size");
            r.headers[3].value += std::string(goal - size(), 'X');      // eight bits each
            sym_assert(size() == goal, "the block has the size wanted");
            one(r);
            break;
        }
        case 7: one({200, {1}, {{"x-big", std::string(4000, 'b')}, {"x-127", std::string(126, 'c') + text(1, "v2")}}}); break;
    }
    s.open();
    s.w.give(all);
    for (int i = 0; i < 30000 && !s.over; ++i) {
        s.drive(30000);
        if (s.last == Http2ProcessResult::WantRead) break;
    }
    expectAll(s, want);
    sym_assert(s.seen.size() == want.size(), "each request reaches its handler once");
    sym_observe("out", s.w.out.data(), s.w.out.size() < 300 ? s.w.out.size() : 300);
    return 0;
}
