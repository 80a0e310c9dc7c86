//@ py: S = {"plain":0,"violation":1,"goaway":2,"odd":3,"badsettings":4,"short":5,"empty":6}
//@ cases-quick: [(f"cut1_{k}", [0,v,1]) for k, v in S.items()] + [(f"cut2_{k}", [0,v,2]) for k, v in S.items() if k in ("short",)] + [(f"chunk_{k}", [1,v,0]) for k, v in S.items()] + [("big_chunk",[2,0,0]),("big_cut",[2,1,0]),("full_buffer",[2,2,0])] + [(f"largest_{l}", [4,l,0]) for l in (16374,16375,16380,16383,16384)] + [("anyframe",[3,0,0])]
//@ cases-thorough: [(f"cut1_{k}", [0,v,1]) for k, v in S.items()] + [(f"cut2_{k}", [0,v,2]) for k, v in S.items()] + [(f"cut3_short",[0,5,3])] + [(f"chunk_{k}", [1,v,0]) for k, v in S.items()] + [("big_chunk",[2,0,0]),("big_cut",[2,1,0]),("full_buffer",[2,2,0])] + [(f"largest_{l}", [4,l,0]) for l in (16374,16375,16380,16383,16384)] + [("anyframe",[3,0,0]),("anyframe_cut",[3,1,0])]
//@ bounds: seven conversations of 60..170 bytes (requests, SETTINGS, WINDOW_UPDATE, DATA, unknown frames, violations, GOAWAY) split at any one position (quick), any two (thorough; one conversation quick) or any three (one conversation, thorough), the reader blocking at each split, and in equal reads of every size 1..200, with arbitrary header values, stream ids, settings, payload and flag bytes in them; conversations of over 64 KiB with 16384-byte frames in reads around the 16 KiB and 48 KiB buffer sizes; frames (requests and others) of 16374..16384 bytes cut at each of the last thirty positions
//@ outside: conversations other than those listed; a peer that closes its side while unprocessed requests are still buffered
//@ reach: same complete
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C12: the conversation does not depend on how the input is cut, and no complete frame waits.
#include "../env/conn.h"
using namespace env;
static std::vector<size_t> ends, acks;      // where each request and each SETTINGS frame ends in the input
static uint8_t any(const char* n) { return sym_val<uint8_t>(n); }
static Bytes conversation(int k) {
    Bytes b = preface();
    ends.clear(); acks.clear();
    auto req = [&](uint32_t sid, const char* path, const char* m = "GET") {
        Bytes h = reqBlock(m, path);
        std::string v{(char)any("value"), (char)any("value")};
        ref::putLiteral(h, "x-q", v);
        Bytes f = frame(1, 5, sid, h);
        f[6] = any("stream"); f[8] = any("stream");
        add(b, f); ends.push_back(b.size());
    };
    if (k == 5) { req(1, "/a"); req(3, "/b"); return b; }
    if (k == 6) {      // frames without payload
        for (int i = 0; i < 2; ++i) { add(b, frame(4, 0, 0, {})); acks.push_back(b.size()); }
        add(b, frame(0xbe, any("flags"), 9, {}));
        add(b, frame(1, 4, 1, {})); ends.push_back(b.size());
        add(b, frame(4, 0, 0, {})); acks.push_back(b.size());
        return b;
    }
    add(b, frame(4, 0, 0, {0, any("id"), 0, 0, 0, any("setting"), 0, 4, 0, any("setting"), 0, 0})); acks.push_back(b.size());
    req(1, "/a");
    if (k == 3) { add(b, frame(0xbe, any("flags"), 9, {any("payload"), 2, 3})); add(b, frame(6, 0, 0, {1, 2, 3, 4, 5, 6, 7, 8})); add(b, frame(2, 0, 3, {0, 0, 0, 0, 9})); }
    add(b, frame(8, 0, 0, {0, any("increment"), 0, 0}));
    req(3, "/none", "POST");
    add(b, frame(0, 1, 3, {any("data"), any("data"), 'z'}));
    if (k == 1) add(b, frame(1, 5, 5, {0xff, 0xff}));
    if (k == 2) add(b, frame(7, 0, 0, {0, 0, 0, 0, 0, 0, 0, 0}));
    if (k == 4) add(b, frame(4, 0, 0, {1, 2, 3}));
    req(7, "/b");
    return b;
}
static void routes(Session& s) {
    s.r.add_middleware([&s](RouteHandler h) { return [&s, h](const HttpRequest& q) { s.seen.push_back({q.method, q.path, q.headers}); return h(q); }; });
    s.r.add_route("/a", "GET", [](const HttpRequest& q) { HttpResponse r{200, {'h', 'i'}, {{"x-a", "one"}}}; if (!q.headers.empty()) for (char c : q.headers.back().value) r.body.push_back((uint8_t)c); return r; });
    s.r.add_route("/b", "GET", [](const HttpRequest&) { return HttpResponse{204, {}, {{"x-a", "one"}}}; });
}
static void noneWaiting(Session& s) {
    if (s.over || s.last != Http2ProcessResult::WantRead) return;
    size_t due = 0;
    for (size_t e : ends) due += e <= s.w.pos;
    size_t n = 0, dueAcks = 0, nAcks = 0;
    Out o(s.w.out);
    for (auto& f : o.f) { n += f.type == 1; nAcks += f.type == 4 && (f.flags & 1); }
    for (size_t e : acks) dueAcks += e <= s.w.pos;
    sym_assert(n >= due && nAcks >= dueAcks, "no complete frame is left unprocessed while the connection waits for input");
    sym_reach("complete");
}
static void stepwise(Session& s, size_t limit) {
    s.w.limit = limit;
    for (int i = 0; i < 400 && !s.over; ++i) {
        size_t p0 = s.w.pos, o0 = s.w.out.size();
        s.last = s.c->process();
        if (s.last == Http2ProcessResult::DiscardConnection) { s.over = true; return; }
        noneWaiting(s);
        if (s.w.pos >= s.w.limit) return;
        if (p0 == s.w.pos && o0 == s.w.out.size()) sym_fail("the connection neither reads nor writes although it can");
    }
}
static void compare(Session& a, Session& b) {
    sym_assert(a.over == b.over, "whether the connection is ended does not depend on how the input is cut");
    sym_assert(a.seen.size() == b.seen.size(), "as many requests are delivered however the input is cut");
    for (size_t i = 0; i < a.seen.size() && i < b.seen.size(); ++i) {
        bool eq = a.seen[i].method == b.seen[i].method && a.seen[i].path == b.seen[i].path && a.seen[i].headers.size() == b.seen[i].headers.size();
        for (size_t j = 0; eq && j < a.seen[i].headers.size(); ++j) eq = a.seen[i].headers[j].name == b.seen[i].headers[j].name && a.seen[i].headers[j].value == b.seen[i].headers[j].value;
        sym_assert(eq, "the same requests are delivered however the input is cut");
    }
    sym_assert(same(a.w.out, b.w.out), "the bytes sent back do not depend on how the input is cut");
    sym_reach("same");
}
int harness_main() {
    Session a, b;
    routes(a); routes(b);
    a.open(); b.open();
    int mode = (int)sym_param(0), k = (int)sym_param(1), cuts = (int)sym_param(2);
    Bytes all;
    if (mode <= 1) all = conversation(k);
    else if (mode == 2) {
        all = preface();
        for (int i = 0; i < 6; ++i) { add(all, frame(0, 0, 1, Bytes(i == 3 ? 16383 : 16384, (uint8_t)i))); if (i % 2) { add(all, request(2 * i + 1, "/a")); ends.push_back(all.size()); } }
    } else if (mode == 4) {          // one frame of nearly the greatest length
        all = preface();
        if (sym_bool("request")) {
            Bytes h = reqBlock("GET", "/a");
            while (h.size() + 8 < (size_t)k) { size_t room = (size_t)k - h.size() - 8; ref::putLiteral(h, "x-q", std::string(room < 4000 ? room : 4000, 'v'), 0x00); }
            while (h.size() < (size_t)k) h.push_back(0x82);
            add(all, frame(1, 5, 1, h)); ends.push_back(all.size());
        } else add(all, frame(sym_bool("data") ? 0 : 0x20, 0, 1, Bytes((size_t)k, 0x55)));
        add(all, request(3, "/a")); ends.push_back(all.size());
    } else {
        all = preface();
        Bytes h(9); sym_make(h.data(), 9, "header");
        sym_assume(h[3] != 1 && h[0] == 0 && h[1] == 0 && h[2] <= 3);
        size_t n = (size_t)sym_concretize(h[2]);
        add(all, h); all.resize(all.size() + n, 0x11);
        add(all, request(3, "/a"));
    }
    a.w.in = all; b.w.in = all;
    stepwise(a, all.size());
    if (mode == 0 || (mode == 3 && k)) {
        size_t at = 0;
        if (mode == 3) cuts = 1;
        for (int i = 0; i < cuts; ++i) {
            at += (size_t)sym_choose(all.size() + 1 - at, "cut");
            stepwise(b, at);
            if (b.w.pos < at && !b.over) stepwise(b, at);
        }
        stepwise(b, all.size());
    } else if (mode == 1) {
        b.w.chunk = 1 + (size_t)sym_choose(200, "chunk");
        stepwise(b, all.size());
    } else if (mode == 2 && k < 2) {
        static const size_t sizes[] = {1000, 4096, 16383, 16384, 16385, 9, 49151, 49152, 49153, 32768, 65535, 65536, 65537, 20000};
        size_t n = sizes[sym_choose(14, "size")];
        if (k == 0) { b.w.chunk = n; stepwise(b, all.size()); }
        else { for (size_t at = n; at < all.size(); at += n) { stepwise(b, at); if (b.over) break; if (n < 100 && at > 2000) break; } stepwise(b, all.size()); }
    } else if (mode == 4) {
        size_t end = 24 + 9 + (size_t)k;
        stepwise(b, end - (size_t)sym_choose(30, "cut"));
        stepwise(b, all.size());
    } else if (mode == 2) {
        b.w.chunk = 16000 + (size_t)sym_choose(400, "chunk");
        stepwise(b, all.size());
    } else {
        b.w.chunk = 1 + (size_t)sym_choose(9, "chunk");
        stepwise(b, all.size());
    }
    compare(a, b);
    sym_observe("out", a.w.out.data(), a.w.out.size());
    return 0;
}
