//@ cases-quick: [(f"cuts_{k}_{p}", [0,k,p]) for k in range(4) for p in (0,1)] + [(f"upload_{n}_{m}", [1,n,m]) for n,m in ((16384,0),(5000,1),(1000,0),(16384,2))] + [(f"download_{m}", [2,m,0]) for m in (0,1)] + [("handshake",[3,0,0]),("pair",[4,0,0])]
//@ cases-thorough: [(f"cuts_{k}_{p}", [0,k,p]) for k in range(4) for p in (0,1,2)] + [(f"upload_{n}_{m}", [1,n,m]) for n in (300,1000,4096,5000,16383,16384) for m in (0,1,2)] + [(f"download_{m}", [2,m,1]) for m in (0,1,2)] + [("handshake",[3,1,0]),("pair",[4,0,0]),("pair_upload",[4,1,0])]
//@ time-quick: 40
//@ bounds: conversations of a preface, SETTINGS and three requests with arbitrary header values (one of them ended by a malformed header block, one by GOAWAY), put into TLS records cut at any byte (thorough: any two), empty records and records without application data in between, the protected bytes arriving cut at any byte around a record boundary or one to seven at a time; uploads of 90000 bytes of requests in records of the listed sizes; a response of 100000 bytes to a client that takes any multiple of 1500 bytes at a time while it sends more requests; both handshake flights arriving cut at any byte with other clients served meanwhile; two clients whose records interleave
//@ outside: the TLS library itself (records, handshake flights and blocking follow the model in sym/env/tls.h); a handshake or a read that cannot go on because the server's send buffer is full (ion waits for input then); renegotiation; early data
//@ assumptions: the library hands out at most the rest of one record per read, and reads no further record from the socket than it needs
//@ reach: alike ended big blocked
//@ sources: lib/
// C41: over TLS a client is served exactly as in cleartext.
#include "../env/server.h"
#include "../env/tls.h"
#include "../env/fs.h"
using namespace env;
static void setUp() { fsm::start(); fsm::file(fsm::root, "c", std::string("C")); fsm::file(fsm::root, "k", std::string("K")); tls::records = true; }
static void routes(Router& r) {
    for (const char* path : {"/r", "/s"}) r.add_route(path, "GET", [](const HttpRequest& q) {
        HttpResponse a{200};
        for (auto& h : q.headers) if (h.name == "x-q") { a.body.insert(a.body.end(), h.value.begin(), h.value.end()); if (q.path == "/s" && (uint8_t)h.value[0] > 0xf0) a.status_code = 404; }
        return a;
    });
    r.add_route("/big", "GET", [](const HttpRequest&) { Bytes b(100000); for (size_t i = 0; i < b.size(); ++i) b[i] = (uint8_t)(i * 31 >> 3); return HttpResponse{200, b}; });
}
static Bytes ask(uint32_t sid, size_t n, const char* path = "/r", size_t times = 1) {
    Bytes b = {0x82}; ref::putLiteral(b, ":path", path);
    std::string v(n, 'v'); sym_make(v.data(), n < 2 ? n : 2, "value");
    if (n) for (; times; --times) ref::putLiteral(b, "x-q", v, 0x40);
    return frame(1, 5, sid, b);
}
static Bytes hello() { Bytes p = preface(); add(p, frame(4, 0, 0, {})); return p; }
static void put(Bytes& w, const Bytes& plain, size_t from, size_t to, char type = 'R') {
    size_t n = to - from;
    add(w, {(uint8_t)type, (uint8_t)(n >> 8), (uint8_t)n});
    w.insert(w.end(), plain.begin() + from, plain.begin() + to);
}
static Bytes flights() { return {'C', 1, 2, 3, 4, 'F', 1, 2, 3, 4}; }
// what the client decrypts
struct Plain { Bytes b; bool whole = true, notified = false, handshake = false; };
static Plain open(const Bytes& out) {
    Plain p; size_t i = 0;
    while (i < out.size() && out[i] == 'S') ++i;
    p.handshake = i == tls::kFlight;
    while (i < out.size()) {
        if (out.size() - i < 3) { p.whole = false; break; }
        size_t n = (size_t)out[i + 1] << 8 | out[i + 2];
        if (out.size() - i - 3 < n) { p.whole = false; break; }
        if (out[i] == 'A') p.notified = true; else p.b.insert(p.b.end(), out.begin() + i + 3, out.begin() + i + 3 + n);
        i += 3 + n;
    }
    return p;
}
// the same bytes over a cleartext connection
static size_t any(size_t n, const char* what) { uint16_t v = sym_val<uint16_t>(what); sym_assume(v < n); return (size_t)sym_concretize(v); }
struct Clear { Bytes out; bool over; };
static Clear clear(const Bytes& in) {
    Session s; routes(s.r); s.open(); s.give(in);
    return {.out = s.w.out, .over = s.over};
}
static void alike(net::Sock* s, bool gone, const Clear& c) {
    Plain p = open(s->out);
    sym_assert(p.handshake, "a handshake the client completes is completed");
    sym_assert(gone == c.over, "a connection over TLS ends exactly when it would end in cleartext");
    sym_assert(p.whole && same(p.b, c.out), "a client over TLS receives exactly what it would receive in cleartext");
    sym_reach(gone ? "ended" : "alike");
}
static ServerConfiguration config() { ServerConfiguration c; c.cert_path = "/c"; c.key_path = "/k"; return c; }
int harness_main() {
    int mode = (int)sym_param(0), a = (int)sym_param(1), b = (int)sym_param(2);
    setUp();
    Http2Server sv(config());
    routes(sv.router());
    if (mode == 0) {
        Bytes plain = hello(); add(plain, ask(1, 2, a < 2 ? "/s" : "/r"));
        if (a == 0) add(plain, frame(1, 5, 3, {0x82, 0x04, 2, '/', 'r', 0xbe}));
        if (a == 1) add(plain, frame(1, 5, 3, {0x82, 0xff}));
        if (a == 2) add(plain, frame(7, 0, 0, {0, 0, 0, 0, 0, 0, 0, 0}));
        if (a == 3) plain[5] ^= 1;
        add(plain, ask(5, 2));
        Clear want = clear(plain);
        Bytes wire;
        size_t at = any(plain.size() + 1, "cut"), at2 = b == 2 ? any(plain.size() + 1, "cut") : plain.size();
        sym_assume(at <= at2);
        put(wire, plain, 0, at);
        if (b == 1) { put(wire, plain, 0, 0); put(wire, plain, 0, 0, 'K'); }
        size_t edge = wire.size();
        put(wire, plain, at, at2);
        if (at2 < plain.size()) put(wire, plain, at2, plain.size());
        net::Sock* s = nullptr;
        size_t split = wire.size();
        if (b == 0) { size_t o = (size_t)sym_choose(5, "arrival"); split = o == 4 ? wire.size() : edge + o < 2 ? 0 : edge + o - 2; }
        size_t slow = b == 1 ? (size_t)sym_choose(3, "slow") * 3 + 1 : ~0ull;
        srv::steps.push_back([&] { s = net::client(); add(s->in, flights()); if (slow != 1) s->maxRead = slow; if (b == 1) { Bytes f(wire.begin(), wire.begin() + split); add(s->in, f); } });
        if (b != 1) srv::steps.push_back([&] { Bytes f(wire.begin(), wire.begin() + split); add(s->in, f); });
        if (split < wire.size()) srv::steps.push_back([&] { if (s->fd >= 0) { Bytes f(wire.begin() + split, wire.end()); add(s->in, f); } });
        bool gone = false;
        srv::steps.push_back([&] { gone = s->fd < 0; });
        srv::run(sv);
        alike(s, gone, want);
        return 0;
    }
    if (mode == 1) {      // more than the read buffer holds, all there at once
        Bytes plain = hello(), wire = flights();
        for (uint32_t i = 0; i < 9; ++i) add(plain, ask(1 + 2 * i, 3900, "/r", 1 + (i * 3 + (uint32_t)b) % 4));
        Clear want = clear(plain);
        if (b == 1) { put(wire, plain, 0, 7); Bytes rest(plain.begin() + 7, plain.end()); for (size_t i = 0; i < rest.size(); i += (size_t)a) put(wire, rest, i, std::min(rest.size(), i + (size_t)a)); }
        else for (size_t i = 0; i < plain.size(); i += (size_t)a) put(wire, plain, i, std::min(plain.size(), i + (size_t)a));
        net::Sock* s = nullptr;
        srv::settleMax = 60;
        srv::steps.push_back([&] { s = net::client(); s->in = wire; if (b == 2) s->room = 20000; });
        if (b == 2) for (int i = 0; i < 8; ++i) srv::steps.push_back([&] { s->room += 20000; });
        srv::run(sv);
        alike(s, s->fd < 0, want);
        sym_reach("big");
        return 0;
    }
    if (mode == 2) {
        Bytes plain = hello(); add(plain, ask(1, 0, "/big"));
        Bytes more; for (uint32_t i = 0; i < 3; ++i) add(more, ask(3 + 2 * i, 2));
        Bytes both = plain; add(both, more);
        Clear want = clear(both);
        size_t step = (1 + (size_t)sym_choose(b ? 40 : 12, "room")) * (b ? 500 : 1500);
        size_t when = (size_t)sym_choose(3, "when");
        net::Sock* s = nullptr;
        srv::settleMax = 3;
        srv::steps.push_back([&] { s = net::client(); s->room = step + tls::kFlight; add(s->in, flights()); put(s->in, plain, 0, plain.size()); });
        for (size_t i = 0; i * step < 110000; ++i) srv::steps.push_back([&, i] {
            if (i == when) { if (a == 0) put(s->in, more, 0, more.size()); else for (size_t j = 0; j < more.size(); j += 11) put(s->in, more, j, std::min(more.size(), j + 11)); }
            if (s->room == 0) sym_reach("blocked");
            s->room += a == 2 && i % 3 == 1 ? 1 : step;
        });
        srv::steps.push_back([&] { s->room = ~0ull; });
        srv::run(sv, 2000);
        alike(s, s->fd < 0, want);
        return 0;
    }
    if (mode == 3) {      // the flights arrive in pieces; another client comes and goes meanwhile
        Bytes plain = hello(); add(plain, ask(1, 2, "/s"));
        Clear want = clear(plain);
        Bytes wire = flights(); put(wire, plain, 0, plain.size());
        size_t c1 = any(12, "piece"), c2 = c1 + any(a ? 12 : 7, "piece");
        net::Sock *s = nullptr, *o = nullptr;
        bool junk = sym_bool("junk");
        srv::steps.push_back([&] { s = net::client(); s->in.assign(wire.begin(), wire.begin() + c1); });
        srv::steps.push_back([&] { o = net::client(); o->in = junk ? Bytes(20, 'G') : wire; });
        srv::steps.push_back([&] { Bytes f(wire.begin() + c1, wire.begin() + c2); add(s->in, f); env::now_ns += 4'000'000'000; if (o->fd >= 0) o->eof = true; });
        srv::steps.push_back([&] { Bytes f(wire.begin() + c2, wire.end()); add(s->in, f); });
        srv::run(sv);
        alike(s, s->fd < 0, want);
        if (!junk) alike(o, false, want);
        return 0;
    }
    // two clients; the records of one come in anywhere between those of the other
    Bytes plain[2], rest[2]; Clear want[2];
    for (int i = 0; i < 2; ++i) {
        plain[i] = hello();
        for (uint32_t k = 0; k < 3; ++k) add(plain[i], ask(1 + 2 * k, a ? 3900 : 2 + (size_t)i));
        want[i] = clear(plain[i]);
    }
    net::Sock* s[2] = {nullptr, nullptr};
    srv::steps.push_back([&] { for (auto& x : s) { x = net::client(); add(x->in, flights()); } });
    size_t part[2] = {0, 0};
    for (int k = 0; k < 6; ++k) {
        int who = (int)sym_choose(2, "next");
        sym_assume(part[who] < 3);
        size_t i = part[who]++, n = plain[who].size() / 3, from = i * n, to = i == 2 ? plain[who].size() : from + n;
        srv::steps.push_back([&, who, from, to] { put(s[who]->in, plain[who], from, to); });
    }
    srv::run(sv);
    for (int i = 0; i < 2; ++i) alike(s[i], s[i]->fd < 0, want[i]);
    return 0;
}
