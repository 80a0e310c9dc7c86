//@ cases-quick: [(f"start{n}", [0,n]) for n in (1,9,23,24,25,33)] + [(f"frame_p{m}_c{c}", [1,m,c]) for m in (0,1,2,3,4,5,6,7,8) for c in (0,)] + [(f"frame_p{m}_c{c}", [1,m,c]) for m in (0,5) for c in (1,3)] + [(f"hdr_p{m}_k{k}", [2,m,k]) for m, k in ((0,0),(1,0),(1,2),(2,0))] + [("hdr_flags_p6",[3,6,0]),("hdr_flags_p7",[3,7,0]),("biglen",[4,0,0]),("accum",[5,0,0]),("accum_half",[5,1,0]),("accum_slow",[5,2,0]),("two",[6,0,0]),("err_after",[7,0,0])] + [(f"lenbuf{n}", [8,n,0]) for n in (16383,16384)] + [(f"payload{n}", [10,n,0]) for n in (9,10,12,17,36,255)] + [("flood",[9,0,0])]
//@ cases-thorough: [(f"start{n}", [0,n]) for n in range(1,60)] + [(f"frame_p{m}_c{c}", [1,m,c]) for m in range(0,24) for c in (0,1,3)] + [(f"hdr_p{m}_k{k}", [2,m,k]) for m, k in ((0,0),(1,0),(1,2),(2,0),(2,2),(3,0))] + [(f"hdr_flags_p{n}",[3,n,0]) for n in range(1,12)] + [("biglen",[4,0,0]),("accum",[5,0,0]),("accum_half",[5,1,0]),("accum_slow",[5,2,0]),("two",[6,0,0]),("two_p2",[6,2,0]),("err_after",[7,0,0])] + [(f"payload{n}", [10,n,0]) for n in (6,7,8,9,10,11,12,13,16,17,18,24,36,64,100,255,256)] + [(f"lenbuf{n}", [8,n,0]) for n in (16379,16380,16381,16382,16383,16384)] + [("flood",[9,0,0])]
//@ bounds: any opening of up to 33 (quick) / 59 (thorough) arbitrary bytes; after a valid opening (and after up to 3 requests) any frame header (all 2^72) with 0..8 / 0..23 further arbitrary bytes behind it; HEADERS frames with up to 2 / 3 arbitrary block bytes and all flags; two arbitrary frames; frames of 16383..16384 bytes; frames of any other type with 9 to 255 arbitrary payload bytes; every transport error after every frame; up to 400 KB of input arriving faster than it is answered, with every write blocking in turn; 147 KB arriving at once in reads of 45 size patterns
//@ outside: header blocks with more arbitrary bytes (C05 decides the decoder on its own); longer sequences of arbitrary frames
//@ reach: discarded waiting
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C11: no input crashes, loops or piles up.  The engine itself checks every access, operation and exception.
#include "../env/conn.h"
using namespace env;
static Session* S;
static std::vector<size_t> starts;
static bool half;
static int64_t slow(Wire& w, std::span<const uint8_t> b) {
    if (w.writes % 3 == 1) return -1 - (int64_t)TransportError::WantReadOrWrite;
    return half ? (int64_t)(b.size() + 1) / 2 : (int64_t)b.size();
}
int harness_main() {
    Session s; S = &s;
    s.r.add_middleware([](RouteHandler h) {
        return [h](const HttpRequest& q) {
            size_t i = S->seen.size();
            S->seen.push_back({q.method, q.path, {}});
            if (i < starts.size()) sym_assert(S->w.pos - starts[i] <= 65536, "never more than 64 KiB of received data is held unprocessed");
            return h(q);
        };
    });
    s.r.add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, {'x'}, {{"k", "v"}}}; });
    s.open();
    int mode = (int)sym_param(0), n = (int)sym_param(1), c = (int)sym_param(2);
    auto anyBytes = [](size_t k) { Bytes b(k); if (k) sym_make(b.data(), k, "bytes"); return b; };
    if (c) s.w.chunk = c;
    Bytes all;
    switch (mode) {
        case 0: all = anyBytes(n); s.w.eof = sym_bool("eof"); break;
        case 1: {
            all = preface(); add(all, request(1, "/"));
            Bytes h = anyBytes(9), p = anyBytes(n);
            sym_assume(h[3] != 1);
            add(all, h); add(all, p);
            if (n >= 9) sym_assume(p[3] != 1);     // a second header inside the tail
            break;
        }
        case 2: {
            all = preface();
            for (int i = 0; i < c; ++i) add(all, frame(1, 5, 2 * i + 1, [&] { Bytes b; ref::putLiteral(b, ":path", "/", 0x40); ref::putLiteral(b, ":method", "GET", 0x40); return b; }()));
            Bytes h = anyBytes(9), p = anyBytes(n);
            sym_assume(h[0] == 0 && h[1] == 0 && h[2] == n && h[3] == 1 && (h[4] & 0x28) == 0);
            add(all, h); add(all, p); add(all, request(9, "/"));
            s.w.chunk = ~0ull;
            break;
        }
        case 3: {
            all = preface();
            Bytes h = anyBytes(9), p = anyBytes(n);
            sym_assume(h[0] == 0 && h[1] == 0 && h[2] <= n && h[3] == 1 && (h[4] & 0x28) != 0);
            for (int i = 1; i < n; ++i) sym_assume(p[i] == 0x82 || p[i] == 0x84);
            add(all, h); add(all, p);
            break;
        }
        case 4: {
            all = preface();
            Bytes h = anyBytes(9);
            sym_assume((h[0] != 0 || h[1] >= 0x40 || (h[1] == 0x3f && h[2] >= 0xfc)) && h[3] != 1);
            add(all, h); add(all, Bytes(20000, 0x55));
            break;
        }
        case 5: {
            all = preface();
            for (int i = 0; i < 24; ++i) {
                add(all, frame((uint8_t)(i % 2 ? 0 : 0x20), 0, 1, Bytes(16384, (uint8_t)i)));
                starts.push_back(all.size());
                add(all, request(2 * i + 1, "/"));
            }
            half = n == 1;
            if (n) s.w.onWrite = slow;
            if (n == 2) s.w.chunk = 1 + (size_t)sym_choose(8, "chunk") * 7000;
            break;
        }
        case 6: {
            all = preface();
            for (int i = 0; i < 2; ++i) { Bytes h = anyBytes(9); sym_assume(h[0] == 0 && h[1] == 0 && h[2] <= n + 1 && h[3] != 1); size_t k = (size_t)sym_concretize(h[2]); add(all, h); add(all, anyBytes(k)); }
            break;
        }
        case 7: {
            all = preface(); add(all, frame(4, 0, 0, {})); add(all, request(1, "/")); add(all, frame(8, 0, 0, {0, 0, 0, 1}));
            size_t at = (size_t)sym_choose(all.size() + 1, "cut");
            all.resize(at);
            s.w.readErr = (int)sym_choose(5, "error");
            break;
        }
        case 9: {
            static const size_t first[] = {0, 1, 2, 7, 100, 8191, 8192, 16382, 16383};
            static const size_t chunk[] = {~0ull, 16383, 8192, 4097, 1000};
            s.w.first = first[sym_choose(9, "first")];
            s.w.chunk = chunk[sym_choose(5, "chunk")];
            s.w.bounded = true;
            all = preface();
            for (int i = 0; i < 9; ++i) add(all, frame(0x20, 0, 1, Bytes(16384, (uint8_t)i)));
            break;
        }
        case 10: {       // one frame of any other type with an arbitrary payload
            all = preface();
            uint8_t t = sym_val<uint8_t>("type"), f = sym_val<uint8_t>("flags");
            sym_assume(t != 1);
            add(all, frame(t, f, 3, anyBytes(n)));
            add(all, request(5, "/"));
            break;
        }
        case 8: {
            all = preface();
            uint8_t t = sym_val<uint8_t>("type"), f = sym_val<uint8_t>("flags");
            sym_assume(t != 1);
            Bytes p(n, 0); if (n > 4) sym_make(p.data(), 4, "payload");
            add(all, frame(t, f, 3, p)); add(all, request(5, "/"));
            break;
        }
    }
    s.w.give(all);
    sym_step_limit(60'000'000);
    if (mode == 5 && n) { for (int i = 0; i < 2000 && !s.over && !(s.last == Http2ProcessResult::WantRead && i && s.w.pos >= s.w.limit); ++i) { s.last = s.c->process(); s.over = s.last == Http2ProcessResult::DiscardConnection; } }
    else if (s.w.readErr >= 0) { for (int i = 0; i < 3 && !s.over; ++i) { s.last = s.c->process(); s.over = s.last == Http2ProcessResult::DiscardConnection; } }
    else s.drive(3000);
    sym_step_limit(0);
    if (mode == 5) sym_assert(s.seen.size() == 24 && !s.over, "all requests are served");
    sym_reach(s.over ? "discarded" : "waiting");
    s.c->close();
    s.c.reset();
    sym_observe("out", s.w.out.data(), s.w.out.size() < 400 ? s.w.out.size() : 400);
    return 0;
}
