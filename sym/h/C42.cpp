//@ cases-quick: [(f"close_{k}_{n}", [0,k,n]) for k in range(4) for n in (0,1,2)] + [("twice",[1,0,0]),("broken",[2,0,0]),("client_first",[3,0,0]),("large",[4,0,0]),("fresh",[5,0,0])]
//@ cases-thorough: [(f"close_{k}_{n}", [0,k,n]) for k in range(6) for n in (0,1,2,3)] + [("twice",[1,0,0]),("broken",[2,0,0]),("client_first",[3,0,0]),("large",[4,0,0]),("fresh",[5,0,0])]
//@ time-quick: 40
//@ bounds: a connection before, in and after its preface; a connection with no to two (thorough: three) requests answered with 300 bytes, closed with nothing, part of a frame (looked at or not), a whole request or several arrived and not yet looked at, and with any part of the output taken so far; the transport taking any number of bytes up to 250 in each of its next four writes, or none; 100000, 1.1 million or 2.5 million bytes pending at the closing; closing twice at any time; the peer or the transport failing at any point of it
//@ outside: closing a TLS connection before its handshake; a client that never takes the rest (C19 ends it)
//@ reach: closed blocked unserved failed
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C42: closing a connection delivers what is owed, then one GOAWAY, then ends it.
#include "../env/conn.h"
using namespace env;
static size_t served = 0, shutAt = ~0ull;
static uint8_t take[4];
static size_t calls = 0;
static int64_t slow(Wire&, std::span<const uint8_t> b) {
    if (calls >= 4) return (int64_t)b.size();
    size_t n = take[calls++];
    if (n == 0) { sym_reach("blocked"); return -1 - (int64_t)TransportError::WantReadOrWrite; }
    n = (size_t)sym_concretize(n);
    return (int64_t)(n < b.size() ? n : b.size());
}
static size_t goaways(const Out& o) { size_t n = 0; for (auto& f : o.f) n += f.type == 7; return n; }
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1);
    size_t n = (size_t)sym_param(2);
    Session s;
    std::string v(300, 'x'); sym_make(v.data(), 2, "value");
    s.r.add_route("/r", "GET", [&](const HttpRequest&) { ++served; return HttpResponse{200, Bytes(v.begin(), v.end())}; });
    s.open();
    if (mode == 5) {             // nothing, or not all, of the preface has come
        Bytes p = preface();
        size_t got = (size_t)sym_choose(4, "arrived"); got = got < 2 ? got : got == 2 ? p.size() - 1 : p.size();
        s.w.give(Bytes(p.begin(), p.begin() + got));
        if (sym_bool("seen")) { auto res = s.c->process(); sym_assert(res == Http2ProcessResult::WantRead, "a connection whose preface is still to come waits"); }
        bool more = sym_bool("more");
        s.c->close();
        if (more) { Bytes r(p.begin() + got, p.end()); add(r, request(1, "/r")); s.w.give(r); }
        for (int i = 0; i < 6 && !s.over; ++i) if (s.c->process() == Http2ProcessResult::DiscardConnection) s.over = true;
        sym_assert(s.over, "a closed connection is discarded");
        sym_assert(served == 0, "nothing is served after the closing");
        Out o(s.w.out);
        sym_assert(o.whole && goaways(o) == 1 && o.f.back().type == 7, "what is owed is followed by exactly one GOAWAY and nothing more");
        sym_assert(s.w.shutdowns == 1, "the sending side is shut down once");
        return 0;
    }
    s.give(preface()); s.give(frame(4, 0, 0, {}));
    for (size_t i = 0; i < n; ++i) s.give(request(1 + 2 * (uint32_t)i, "/r"));
    sym_assert(served == n && !s.over, "requests before the closing are served");
    if (mode == 0 || mode == 1) {
        s.w.onWrite = slow;
        for (auto& t : take) { t = sym_val<uint8_t>("taken"); sym_assume(t == 0 || t == 1 || t == 9 || t == 20 || t == 60 || t == 250); }
        if (mode == 0 && n) {        // one more answer, of which some may have gone out
            s.w.give(request(99, "/r"));
            s.last = s.c->process();
        }
        if (k == 1 && sym_bool("seen")) { Bytes r = request(97, "/r"); s.w.give(Bytes(r.begin(), r.begin() + 9 + (size_t)sym_choose(r.size() - 9, "part"))); s.last = s.c->process(); }
        size_t before = s.w.pos, wasServed = served;
        s.c->close();
        if (mode == 1) s.c->close();
        if (k == 1) { Bytes r = request(101, "/r"); s.w.give(Bytes(r.begin(), r.begin() + 12)); }
        if (k == 2 || k == 3) for (int i = 1; i < k; ++i) s.w.give(request(101 + 2 * (uint32_t)i, "/r"));
        if (k == 4) s.w.give(frame(4, 0, 0, {}));
        if (k == 5) s.w.give(frame(1, 5, 101, {0x82, 0xff}));
        if (k) sym_reach("unserved");
        size_t shut0 = s.w.shutdowns;
        sym_assert(shut0 == 0, "the sending side stays open until everything is delivered");
        bool whole = false;
        for (int i = 0; i < 12 && !s.over; ++i) {
            size_t o0 = s.w.out.size();
            auto res = s.c->process();
            if (mode == 1 && i == 1) s.c->close();
            whole = Out(s.w.out).whole && goaways(Out(s.w.out)) > 0;
            if (res == Http2ProcessResult::DiscardConnection) s.over = true;
            else sym_assert(res == Http2ProcessResult::WantWrite, "a closing connection waits only to deliver what is owed");
            sym_assert(whole || s.w.shutdowns == 0, "the sending side stays open until everything is delivered");
            (void)o0;
        }
        (void)before;
        sym_assert(s.over, "a closed connection is discarded");
        sym_assert(s.w.shutdowns == 1, "the sending side is shut down once");
        sym_assert(served == wasServed, "nothing is served after the closing");
    } else if (mode == 2) {      // the transport fails meanwhile
        s.c->close();
        uint8_t e = sym_val<uint8_t>("error"); sym_assume(e >= 1 && e <= 4); e = (uint8_t)sym_concretize(e);
        size_t good = (size_t)sym_choose(3, "good");
        static size_t left; left = good;
        static uint8_t err; err = e;
        s.w.onWrite = [](Wire&, std::span<const uint8_t> b) -> int64_t { if (left-- == 0) return -1 - (int64_t)err; return b.size() < 5 ? (int64_t)b.size() : 5; };
        s.w.give(request(101, "/r"));
        for (int i = 0; i < 8 && !s.over; ++i) if (s.c->process() == Http2ProcessResult::DiscardConnection) s.over = true;
        sym_assert(s.over, "a closing connection whose transport fails is discarded");
        sym_assert(served == 0, "nothing is served after the closing");
        sym_reach("failed");
        return 0;
    } else if (mode == 4) {      // much is pending
        static const size_t sz[] = {100000, 1100000, 2500000};
        v.assign(sz[sym_choose(3, "size")], 'x');
        for (size_t i = 0; i < v.size(); i += 997) v[i] = (char)(i >> 9);
        static size_t lim; lim = 1 + 70000 * (size_t)sym_choose(2, "first");
        s.w.onWrite = [](Wire&, std::span<const uint8_t> b) -> int64_t { size_t n = lim; lim = 0; if (n) return (int64_t)n; return -1 - (int64_t)TransportError::WantReadOrWrite; };
        s.w.give(request(1, "/r"));
        sym_assert(s.c->process() == Http2ProcessResult::WantWrite, "the answer does not fit");
        s.c->close();
        lim = 20000;
        sym_assert(s.c->process() == Http2ProcessResult::WantWrite, "a closing connection waits only to deliver what is owed");
        sym_assert(s.w.shutdowns == 0, "the sending side stays open until everything is delivered");
        s.w.onWrite = nullptr;
        for (int i = 0; i < 4 && !s.over; ++i) if (s.c->process() == Http2ProcessResult::DiscardConnection) s.over = true;
        sym_assert(s.over, "a closed connection is discarded");
        sym_assert(s.w.shutdowns == 1, "the sending side is shut down once");
        Bytes got;
        for (auto& f : Out(s.w.out).f) if (f.type == 0) add(got, f.p);
        sym_assert(same(got, Bytes(v.begin(), v.end())), "the client still receives everything queued before");
    } else {                     // the client says goodbye at the same time
        s.w.give(request(1, "/r"));
        bool eof = sym_bool("eof");
        if (!eof) s.w.give(frame(7, 0, 0, Bytes(8)));
        s.c->close();
        s.w.eof = eof;
        for (int i = 0; i < 6 && !s.over; ++i) if (s.c->process() == Http2ProcessResult::DiscardConnection) s.over = true;
        sym_assert(s.over, "a closed connection is discarded");
        sym_assert(served == 0, "nothing is served after the closing");
    }
    Out o(s.w.out);
    sym_assert(o.whole, "whole frames are sent");
    sym_assert(goaways(o) == 1 && o.f.back().type == 7, "what is owed is followed by exactly one GOAWAY and nothing more");
    auto& g = o.f.back();
    sym_assert(g.sid == 0 && g.len == 8 && (g.p[4] | g.p[5] | g.p[6] | g.p[7]) == 0, "the GOAWAY tells no error");
    size_t ends = 0; for (auto& f : o.f) if ((f.type == 0 || f.type == 1) && (f.flags & 1)) ++ends;
    sym_assert(ends == served, "every request served is answered in full");
    sym_reach("closed");
    return 0;
}
