//@ py: V = ["big","big_payload","block","settings","goaway"]
//@ cases-quick: [(f"{v}_{a}_{t}", [i,a,t]) for i, v in enumerate(V) for a in (0,1,2) for t in (0,1,2,3)] + [(f"{v}_split", [i,1,4]) for i, v in enumerate(V)] + [(f"{v}_slow", [i,2,5]) for i, v in enumerate(V)] + [(f"{v}_late", [i,1,6]) for i, v in enumerate(V)] + [(f"{v}_many", [i,1,7]) for i, v in enumerate(V) if i]
//@ cases-thorough: [(f"{v}_{a}_{t}", [i,a,t]) for i, v in enumerate(V) for a in (0,1,2,3,5) for t in (0,1,2,3,4,5,6,7)]
//@ bounds: after 0..2 (quick) / 0..5 (thorough) requests, each kind of violation: a frame header of any type, flags and stream announcing any length over 16384, with or without payload behind it; HEADERS with any undecodable block of one to four bytes out of every error class, plain, with priority or padded, with any other flags; SETTINGS of every length that is not a multiple of six up to 23; any GOAWAY; all three on any stream; followed by requests (up to several hundred), SETTINGS and a frame of any type; delivered at once, cut at any point, with slow output or with the rest arriving later
//@ outside: longer continuations; frames that are wrong in other ways (C10)
//@ reach: over
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C16: a protocol violation ends the connection; nothing after it is served.
#include <cstring>
#include "../env/conn.h"
using namespace env;
static int64_t slow(Wire& w, std::span<const uint8_t> b) {
    if (w.writes % 2) return -1 - (int64_t)TransportError::WantReadOrWrite;
    return (int64_t)(b.size() < 40 ? b.size() : 40);
}
static Bytes blockError() {
    Bytes p;
    switch (sym_choose(8, "class")) {
        case 0: p = {0x80}; break;                                       // index zero
        case 1: { uint8_t i = sym_val<uint8_t>("index"); sym_assume(i >= 0x80 + 62 && i < 0xff); p = {i}; break; }      // past the tables
        case 2: { uint8_t i = sym_val<uint8_t>("index"); sym_assume(i >= 0x40 + 62 && i < 0x7f); p = {i, 1, 'v'}; break; }
        case 3: p = {0xff, 0xff, 0xff, 0xff, 0xff, 0xff}; p.push_back(sym_val<uint8_t>("more")); break;   // overlong
        case 4: { uint8_t l = sym_val<uint8_t>("length"); sym_assume((l & 0x7f) > 1 && l < 0x7f); p = {0x00, l, 'a'}; break; }   // truncated
        case 5: p = {0x82, 0x84, 0x00, 0x01, 'k', 0x81, 0xff}; break;    // bad padding
        case 6: { uint8_t k = sym_val<uint8_t>("kind"); sym_assume(k == 0x00 || k == 0x10 || k == 0x40 || k == 0x04); p = {0x82, 0x84, k}; break; }   // nothing follows
        default: p = {0x3f, 0xe2, 0xff, 0x03}; break;                    // table size over 65536
    }
    return p;
}
int harness_main() {
    Session s;
    s.r.add_middleware([&s](RouteHandler) { return [&s](const HttpRequest& q) { s.seen.push_back({q.method, q.path, {}}); return HttpResponse{200, {'b'}}; }; });
    s.open();
    int kind = (int)sym_param(0), before = (int)sym_param(1), tail = (int)sym_param(2);
    Bytes all = preface();
    for (int i = 0; i < before; ++i) add(all, request(2 * i + 1, "/ok"));
    size_t at = all.size();
    bool payload = true;
    switch (kind) {
        case 0: payload = false; [[fallthrough]];
        case 1: {
            Bytes h(9); sym_make(h.data(), 9, "header");
            sym_assume(h[0] > 0 || h[1] > 0x40 || (h[1] == 0x40 && h[2] > 0));
            add(all, h);
            break;
        }
        case 2: {
            uint8_t f = sym_val<uint8_t>("flags"); sym_assume((f & 0x28) == 0);
            Bytes p = blockError();
            switch (sym_choose(3, "prefix")) {
                case 1: f |= 0x20; { Bytes q(5); sym_make(q.data(), 5, "priority"); add(q, p); p = q; } break;
                case 2: f |= 0x08; p.insert(p.begin(), 2); p.push_back(sym_val<uint8_t>("padding")); p.push_back(0x82); break;
            }
            Bytes g = frame(1, f, 0, p);
            uint32_t sid = sym_val<uint32_t>("stream"); sym_assume((sid & 0xffffff7f) != 0);       // in the order sent
            memcpy(g.data() + 5, &sid, 4);
            add(all, g);
            break;
        }
        case 3: {
            size_t n = (size_t)sym_choose(24, "length"); sym_assume(n % 6 != 0);
            Bytes p(n); sym_make(p.data(), n, "settings");
            uint8_t f = sym_val<uint8_t>("flags"); sym_assume(!(f & 1));
            Bytes g = frame(4, f, 0, p); sym_make(g.data() + 5, 4, "stream");
            add(all, g);
            break;
        }
        case 4: { Bytes p(8 + sym_choose(3, "debug")); sym_make(p.data(), p.size(), "goaway"); Bytes g = frame(7, sym_val<uint8_t>("flags"), 0, p); sym_make(g.data() + 5, 4, "stream"); add(all, g); break; }
    }
    Bytes rest;
    if (payload) switch (tail) {
        case 0: break;
        case 1: case 4: case 5: case 6: add(rest, request(91, "/late")); add(rest, frame(4, 0, 0, {})); add(rest, request(93, "/late")); break;
        case 7: { size_t n = sym_bool("few") ? 40 : 500; for (size_t i = 0; i < n; ++i) add(rest, request(91 + 2 * (uint32_t)i, "/late")); break; }
        case 2: { add(rest, frame(4, 0, 0, {0, 3, 0, 0, 0, 1})); Bytes h(9); sym_make(h.data(), 9, "next"); sym_assume(h[0] == 0 && h[1] == 0 && h[2] <= 2); add(rest, h); add(rest, {0x82, 0x84}); add(rest, request(95, "/late")); break; }
        case 3: { Bytes p(9 + 20); sym_make(p.data(), p.size(), "any"); add(rest, p); add(rest, request(97, "/late")); break; }
    }
    if (tail == 5) s.w.onWrite = slow;
    if (tail == 4) { s.w.chunk = 1 + (size_t)sym_choose(12, "chunk"); if (s.w.chunk > 8) s.w.chunk = at + s.w.chunk - 10; }
    auto run = [&] {
        for (int i = 0; i < 200 && !s.over; ++i) { s.drive(3000); if (s.last == Http2ProcessResult::WantRead) break; }
    };
    if (tail != 6) add(all, rest);
    s.w.give(all);
    run();
    sym_assert(s.over, kind < 2 ? "an oversized frame is refused from its header" : "a protocol violation ends the connection");
    if (tail == 6 && !s.over) { s.w.give(rest); run(); }
    for (auto& q : s.seen) sym_assert(q.path == "/ok", "nothing after the violation reaches a handler");
    sym_assert((int)s.seen.size() == before, "the requests before the violation are served, once");
    Out o(s.w.out);
    int resp = 0, acks = 0;
    for (auto& f : o.f) {
        if (f.type == 7) {}
        else if (f.type == 1) { sym_assert(f.sid == (uint32_t)(2 * resp + 1), "only requests before the violation are answered"); ++resp; }
        else if (f.type == 4 && (f.flags & 1)) ++acks;
    }
    sym_assert(resp == before, "output owed for earlier requests has been flushed before the connection is discarded");
    sym_assert(acks == 0, "nothing after the violation is answered");
    sym_reach("over");
    sym_observe("out", s.w.out.data(), s.w.out.size());
    return 0;
}
