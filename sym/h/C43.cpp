//@ py: P = ["small","missing","incomplete","throw","big"]
//@ cases-quick: [(f"frames_{n}", [0,n,0]) for n in (0,4,6)] + [(f"requests_{P[k]}", [1,k,0]) for k in range(5)] + [("pieces",[2,0,0]),("mixed",[3,0,0]),("ended",[4,0,0]),("blocked",[5,0,0]),("clients",[6,0,0])]
//@ cases-thorough: [(f"frames_{n}", [0,n,0]) for n in (0,1,2,4,6,8,12,36)] + [(f"requests_{P[k]}_{d}", [1,k,d]) for k in range(5) for d in (0,1)] + [(f"pieces_{d}",[2,d,0]) for d in (0,1)] + [(f"mixed_{d}",[3,d,0]) for d in (0,1)] + [("ended",[4,1,0]),("blocked",[5,1,0]),("clients",[6,1,0])]
//@ time-quick: 40
//@ bounds: one connection repeating a cycle of frames 88 (thorough: up to 1225) times, each cycle on new streams: frames of any type, flags and stream with up to 6 (thorough: 36) arbitrary bytes, requests of five kinds (those for what is not there with ever new paths and three methods) with arbitrary and with large header values, requests arriving in pieces; connections ended in any of six ways and replaced, alone and through a running server with the status page (ten rounds); a client that sends 300000 bytes of requests and takes no output
//@ outside: memory held by the allocator itself, spdlog, OpenSSL or the kernel; memory a handler keeps; more cycles
//@ assumptions: memory is what operator new and malloc have given out and not got back
//@ reach: steady freed blocked rounds
//@ defs: -include text_streams.h
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader|http2_server|tcp_listener|socket_fd|server_config|stop_reason|pollers/|transports/) app/(server_stats|status_page)
// C43: what the server holds in memory does not grow with what it has served.
#include "../env/server.h"
#include "../env/random.h"
#include "status_page.h"
using namespace env;
static std::string big, val;
static void routes(Router& r) {
    StatusPage::add_status_page(r);
    r.add_route("/r", "GET", [](const HttpRequest& q) {
        HttpResponse a{200};
        for (auto& h : q.headers) if (h.name == "x-q") a.body.assign(h.value.begin(), h.value.end());
        return a;
    });
    r.add_route("/throw", "GET", [](const HttpRequest&) -> HttpResponse { throw std::runtime_error("no"); });
    r.add_route("/big", "GET", [](const HttpRequest&) { return HttpResponse{200, Bytes(40000, 'b'), {{"x-long", big}}}; });
}
static Bytes ask(int kind, uint32_t sid, size_t fill) {
    static const char* path[] = {"/r", "/none", nullptr, "/throw", "/big", "/_ion/status"};
    Bytes b = {0x82};
    if (kind == 1) {       // each time another one
        static uint32_t turn = 0;
        static const char* ms[] = {"GET", "OPTIONS", "PROPPATCH"};
        b.clear(); ref::putLiteral(b, ":method", ms[turn % 3]);
        char n[8]; for (int i = 0; i < 7; ++i) n[i] = (char)('a' + (turn >> (i * 4) & 15)); n[7] = 0;
        ++turn;
        ref::putLiteral(b, ":path", std::string("/none/") + n);
    } else
    if (path[kind]) ref::putLiteral(b, ":path", path[kind]);
    ref::putLiteral(b, "x-q", val, 0x40);
    if (fill) { std::string v(fill, 'f'); v[0] = (char)('a' + sid / 2 % 26); ref::putLiteral(b, "x-fill", v, 0x40); }
    return frame(1, 5, sid, b);
}
static Bytes hello() { Bytes p = preface(); add(p, frame(4, 0, 0, {})); return p; }
struct Client {
    Wire w; std::unique_ptr<Http2Connection> c; bool over = false;
    explicit Client(Router& r) { c = std::make_unique<Http2Connection>(std::make_unique<T>(w), "10.0.0.1", r); }
    void give(const Bytes& b) {
        if (over) return;
        w.give(b);
        for (int i = 0; i < 2000; ++i) {
            size_t p0 = w.pos, o0 = w.out.size();
            if (c->process() == Http2ProcessResult::DiscardConnection) { over = true; break; }
            if (p0 == w.pos && o0 == w.out.size()) break;
        }
        forget();
    }
    void forget() { Bytes().swap(w.in); Bytes().swap(w.out); w.pos = w.limit = 0; }
};
static const char* kGrow = "what a connection holds does not grow with what it has carried";
static const char* kFreed = "everything held for a connection is given back when it ends";
// once the tables are full, the highest level of some cycles is not passed in more than twice as many in all
template <class F> static void steady(size_t warm, size_t half, F&& cycle) {
    uint64_t top = 0;
    for (size_t i = 0; i < 2 * (warm + half) + half; ++i) {
        cycle(i);
        uint64_t now = sym_heap_live();
        if (i >= warm && i < warm + half && now > top) top = now;
        if (i >= warm + half) sym_assert(now <= top, kGrow);
    }
    sym_reach("steady");
}
// done a second time, it leaves nothing more behind
template <class F> static void freed(F&& scenario) {
    scenario();
    uint64_t before = sym_heap_live();
    scenario();
    sym_assert(sym_heap_live() <= before, kFreed);
    sym_reach("freed");
}
static std::unique_ptr<net::Sock> drop(net::Sock* s) {
    for (auto& p : net::all) if (p.get() == s) { auto r = std::move(p); p = std::move(net::all.back()); net::all.pop_back(); return r; }
    return nullptr;
}
int harness_main() {
    int mode = (int)sym_param(0), a = (int)sym_param(1);
    sym_reach("begun");           // (the native run's output buffer is made here)
    big.assign(700, 'L');
    val.assign(2, 'x'); sym_make(val.data(), 2, "value");
    if (mode == 6) {      // clients come and go
        Http2Server sv(srv::cleartext());
        routes(sv.router());
        uint8_t how = sym_val<uint8_t>("end"); sym_assume(how < 6); how = (uint8_t)sym_concretize(how);
        size_t rounds = a ? 24 : 10, round = 0, stage = 0;
        std::vector<net::Sock*> now; now.reserve(4);
        uint64_t top = 0;
        srv::server = &sv;
        net::world = [&]() -> int {
            if (stage++ % 3) return 0;                 // the server settles
            if (stage / 3 % 3 == 0) {
                for (auto* s : now) { sym_assert(round == 0 || s->fd < 0, "a client that left is let go"); drop(s); }
                now.clear();
                uint64_t live = sym_heap_live();
                if (round == 3) top = live;
                if (round > 3) sym_assert(live <= top, "what the server holds does not grow with the clients that have come and gone");
                if (round++ == rounds) { sym_reach("rounds"); srv::finished = true; sv.stop(); return 0; }
                for (size_t i = 0; i < 3; ++i) { now.push_back(net::client()); add(now.back()->in, hello()); add(now.back()->in, ask((int)i * 2 % 5, 1, 100)); }
            } else if (stage / 3 % 3 == 1) {
                for (auto* s : now) if (s->fd >= 0) add(s->in, ask(0, 3, 0));
            } else for (auto* s : now) if (s->fd >= 0) {
                if (how == 0) s->eof = true;
                if (how == 1) s->hup = true;
                if (how == 2) s->rdErr = ECONNRESET, s->err = true;
                if (how == 3) env::now_ns += 6'000'000'000;
                if (how == 4) add(s->in, frame(1, 5, 5, {0x82, 0xff}));
                if (how == 5) { s->wrErr = EPIPE; add(s->in, ask(0, 5, 0)); }
            }
            return 0;
        };
        sv.start(8080);
        return 0;
    }
    Router r; routes(r);
    { Client c(r); c.give(hello()); for (int k = 0; k < 6; ++k) c.give(ask(k, 1 + 2 * (uint32_t)k, 0)); }     // whatever is made once
    size_t warm = sym_param(2) ? 500 : 20, half = sym_param(2) ? 75 : 16;
    size_t fill = sym_param(2) ? 100 : 4000;
    if (mode == 0) {
        struct H { uint8_t type, flags; uint32_t sid; } h = sym_val<H>("frame");
        sym_assume(h.type != 1);
        Bytes p((size_t)a); if (a) sym_make(p.data(), p.size(), "payload");
        freed([&] {
            Client c(r);
            c.give(hello());
            steady(warm, half, [&](size_t i) { c.give(frame(h.type, h.flags, h.sid + 2 * (uint32_t)i, p)); });
        });
    } else if (mode == 1) {      // one kind of request and another in turns
        uint8_t other = sym_val<uint8_t>("other"); sym_assume(other < 5); other = (uint8_t)sym_concretize(other);
        freed([&] {
            Client c(r);
            c.give(hello());
            steady(warm, half, [&](size_t i) { c.give(ask(i % 2 ? other : a, 1 + 2 * (uint32_t)i, fill)); });
            sym_assert(!c.over, "a connection stays usable");
        });
    } else if (mode == 2) {
        uint8_t at = sym_val<uint8_t>("cut"); sym_assume(at < 24); at = (uint8_t)sym_concretize(at);
        freed([&] {
            Client c(r);
            c.give(hello());
            steady(warm, half, [&](size_t i) { Bytes b = ask(0, 1 + 2 * (uint32_t)i, fill); c.give(Bytes(b.begin(), b.begin() + at)); c.give(Bytes(b.begin() + at, b.end())); });
        });
    } else if (mode == 3) {
        Bytes s(6); sym_make(s.data() + 2, 4, "setting"); s[1] = 4;
        freed([&] {
            Client c(r);
            c.give(hello());
            steady(warm, half, [&](size_t i) {
                uint32_t id = 1 + 2 * (uint32_t)i;
                Bytes b = frame(4, 0, 0, s); add(b, frame(4, 1, 0, {})); add(b, frame(6, 0, 0, Bytes(8))); add(b, ask((int)(i % 4), id, 50)); add(b, frame(0, 1, id, Bytes(20))); add(b, frame(8, 0, id, Bytes{0, 0, 1, 0})); add(b, frame(3, 0, id, Bytes(4)));
                add(b, frame(1, 5, id + 1, {0x82, 0x20, 0x3f, 0xe1, 0x1f}));
                c.give(b);
            });
            sym_assert(!c.over, "a connection stays usable");
        });
    } else if (mode == 4) {      // connections ended in the middle of things, one after the other
        uint8_t how = sym_val<uint8_t>("end"); sym_assume(how < 6); how = (uint8_t)sym_concretize(how);
        size_t i = 0;
        for (size_t n = a ? 10 : 3; n; --n) freed([&] {
            for (size_t k = 0; k < 5; ++k, ++i) {
                Client c(r);
                if (how == 5) c.w.onWrite = [](Wire&, std::span<const uint8_t>) -> int64_t { return -1 - (int64_t)TransportError::WantReadOrWrite; };
                if (how != 4) c.give(hello());
                c.give(how == 4 ? Bytes(30, 'G') : ask((int)(i % 5), 1, 200));
                if (how == 0) c.give(frame(1, 5, 3, {0x82, 0xff}));
                if (how == 1) c.give(frame(7, 0, 0, Bytes(8)));
                if (how == 2) { Bytes b = ask(4, 3, 900); b.resize(b.size() - 1); c.give(b); }
                if (how == 3) { c.w.eof = true; c.give({}); }
            }
        });
    } else freed([&] {      // a client that sends and sends and takes nothing
        Bytes in = hello();
        for (uint32_t i = 0; in.size() < 300000; ++i) add(in, ask(a ? 4 : (int)(i % 5), 1 + 2 * i, i % 3 ? 0 : 3000));
        Client c(r);
        c.w.onWrite = [](Wire& w, std::span<const uint8_t> b) -> int64_t { return w.out.size() < 60 ? (int64_t)std::min<size_t>(b.size(), 60 - w.out.size()) : -1 - (int64_t)TransportError::WantReadOrWrite; };
        c.w.give(in);
        uint64_t own = sym_heap_live();
        for (int i = 0; i < 40; ++i) {
            auto res = c.c->process();
            sym_assert(res == Http2ProcessResult::WantWrite, "a client that takes no output is waited for");
            sym_assert(sym_heap_live() < own + 4 * 65536 + 2 * 40000, "what is held for a client that takes no output stays bounded");
        }
        sym_reach("blocked");
    });
    return 0;
}
