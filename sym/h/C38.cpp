//@ py: K = ["index","malformed","goaway","resize","badpreface","echo","cut","hdrcut","busy"]
//@ cases-quick: [(f"pair_{K[a]}_{K[b]}", [0,a,b]) for a,b in ((0,0),(0,1),(0,2),(0,3),(0,5),(1,5),(4,0),(6,0),(7,7),(8,8))] + [(f"recycle_{K[a]}", [1,a,0]) for a in (0,1,3,5,6,8)] + [("blocked",[2,0,0])] + [(f"server_{K[a]}", [4,a,0]) for a in (0,1,2,3,6)] + [(f"told_{K[a]}_{K[b]}", [5,a,b]) for a,b in ((0,5),(7,7),(5,7),(7,0))] + [("crowd4",[6,4,0]),("crowd2_zero",[6,2,1]),("turnover5",[7,5,0])]
//@ cases-thorough: [(f"pair_{K[a]}_{K[b]}", [0,a,b]) for a in range(9) for b in range(a, 9)] + [(f"recycle_{K[a]}_{K[b]}", [1,a,b]) for a in (0,1,2,3,4,5,6,8) for b in (0,3,5,8)] + [(f"blocked_{K[a]}",[2,a,5]) for a in range(7)] + [("three",[3,0,0]),("three_b",[3,1,0])] + [(f"server_{K[a]}_{K[b]}", [4,a,b]) for a in range(7) for b in (0,5)] + [(f"told_{K[a]}_{K[b]}", [5,a,b]) for a in (0,5,7) for b in (0,5,7)] + [(f"crowd{n}",[6,n,0]) for n in (3,4,5,8)] + [("crowd3_zero",[6,3,1])] + [(f"turnover{n}",[7,n,0]) for n in (2,4,5,6,9)]
//@ bounds: two connections (three in one case) carrying nine kinds of conversation of four pieces with arbitrary header values, in every interleaving of their pieces after the first; one connection ended anywhere and another made in its place; one peer that takes no output for any stretch; the same through a running server, also with four (thorough: eight) clients, also with the lowest descriptor numbers, of which any one ends in any of four ways while the others are served, or of five (thorough: nine) of which any two leave and others take their places
//@ outside: more connections than that; shared state of handlers themselves
//@ reach: alike ended
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader|http2_server|tcp_listener|socket_fd|server_config|stop_reason|pollers/|transports/)
// C38: what happens on one connection does not depend on any other.
#include "../env/server.h"
using namespace env;
static std::vector<std::string> said;      // the values in the conversation made last
static std::string any(const char* w) { std::string s(2, 'x'); sym_make(s.data(), 2, w); said.push_back(s); return s; }
static Bytes fields(const std::string& v, const std::vector<uint8_t>& indexed = {}) {
    Bytes b = {0x82, 0x04, 2, '/', 'r'};
    if (v.size()) ref::putLiteral(b, "x-q", v, 0x40);
    b.insert(b.end(), indexed.begin(), indexed.end());
    return b;
}
// a conversation, in the pieces in which it arrives
static std::vector<Bytes> script(int k) {
    said.clear();
    Bytes p = preface(); add(p, frame(4, 0, 0, {}));
    Bytes one = frame(1, 5, 1, fields(any("value")));
    switch (k) {
        case 0: return {p, one, frame(1, 5, 3, fields(any("value"), {0xbf})), frame(1, 5, 5, fields("", {0xbe, 0xbf}))};
        case 1: return {p, one, frame(1, 5, 3, {0x82, 0xff}), frame(1, 5, 5, fields("", {0xbe}))};
        case 2: return {p, one, frame(7, 0, 0, {0, 0, 0, 0, 0, 0, 0, 0}), one};
        case 3: { Bytes z = {0x20}; add(z, fields(any("value"))); Bytes y = {0x3f, 0xe1, 0x1f}; add(y, fields(any("value"), {0xbe})); return {p, frame(1, 5, 1, fields(any("value"))), frame(1, 5, 3, z), frame(1, 5, 5, y)}; }
        case 4: { Bytes j(24, 'G'); return {Bytes(p.begin(), p.begin() + 5), j, one, one}; }
        case 5: return {p, frame(1, 5, 1, fields(any("value"))), frame(1, 5, 3, fields(any("value"))), frame(1, 5, 5, fields(any("value")))};
        case 7: { size_t k = 1 + (size_t)sym_choose(8, "cut"); Bytes h(one.begin(), one.begin() + k), t(one.begin() + k, one.end()); add(t, frame(1, 5, 3, fields("", {0xbe}))); return {p, h, t, frame(1, 5, 5, fields(any("value")))}; }
        case 8: {       // many requests of every outcome
            Bytes x; uint32_t sid = 1;
            for (int i = 0; i < 12; ++i, sid += 2) switch (i % 4) {
                case 0: add(x, frame(1, 5, sid, i ? fields("", {0xbe}) : fields(any("value")))); break;
                case 1: add(x, request(sid, "/none")); break;
                case 2: add(x, request(sid, "/boom")); break;
                case 3: add(x, frame(1, 5, sid, {0x82})); break;
            }
            return {p, x, frame(1, 5, sid, fields("", {0xbe})), request(sid + 2, "/none")};
        }
        default: { Bytes a = one, h(a.begin(), a.begin() + 11), t(a.begin() + 11, a.end()); return {p, h, t, frame(1, 5, 3, fields("", {0xbe}))}; }
    }
}
struct Peer {
    Wire w; std::unique_ptr<Http2Connection> c; bool over = false; size_t at = 0; std::vector<Bytes> s;
    void open(Router& r) { c = std::make_unique<Http2Connection>(std::make_unique<T>(w), "10.0.0.1", r); }
    void step() {
        if (over) return;
        for (int i = 0; i < 100; ++i) {
            size_t p0 = w.pos, o0 = w.out.size();
            auto res = c->process();
            if (res == Http2ProcessResult::DiscardConnection) { over = true; c.reset(); return; }
            if (p0 == w.pos && o0 == w.out.size()) return;
        }
        sym_fail("the connection keeps working without consuming input or producing output");
    }
    void piece() { w.give(s[at++]); step(); }
};
static void routes(Router& r) {
    r.add_route("/boom", "GET", [](const HttpRequest&) -> HttpResponse { throw std::runtime_error("boom"); });
    r.add_route("/r", "GET", [](const HttpRequest& q) {
        HttpResponse a{200};
        for (auto& h : q.headers) if (h.name == "x-q") { a.headers.push_back({"x-echo", h.value}); a.body.insert(a.body.end(), h.value.begin(), h.value.end()); }
        return a;
    });
}
// the same conversation with nobody else around
struct Solo { Bytes out; bool over = false; };
static Solo alone(const std::vector<Bytes>& s, size_t n = 4) {
    auto p = std::make_unique<Peer>(); Router r; routes(r);
    p->s = s; p->open(r);
    while (p->at < n) p->piece();
    p->c.reset();
    return {.out = p->w.out, .over = p->over};
}
static void alike(const Bytes& out, bool over, const Solo& solo) {
    sym_assert(over == solo.over, "a connection ends exactly when it would end alone");
    sym_assert(same(out, solo.out), "a connection sends exactly what it would send alone");
    sym_reach(over ? "ended" : "alike");
}
static int64_t refuse(Wire&, std::span<const uint8_t>) { return -1 - (int64_t)TransportError::WantReadOrWrite; }
int harness_main() {
    int mode = (int)sym_param(0), a = (int)sym_param(1), b = (int)sym_param(2);
    if (mode == 4) {      // through the server; the first client's pieces come in between the second's anywhere
        Http2Server sv(srv::cleartext());
        routes(sv.router());
        auto sa = script(a), sb = script(b);
        Solo soloA = alone(sa), soloB = alone(sb);     // before, so that nothing of the other run is left behind
        net::Sock *x = nullptr, *y = nullptr;
        size_t gap = (size_t)sym_choose(5, "when");
        srv::steps.push_back([&] { x = net::client(); y = net::client(); });
        for (size_t i = 0; i <= 4; ++i) {
            if (i == gap) for (size_t j = 0; j < 4; ++j) srv::steps.push_back([&, j] { if (x->fd >= 0) add(x->in, sa[j]); });
            if (i < 4) srv::steps.push_back([&, i] { if (y->fd >= 0) add(y->in, sb[i]); });
        }
        bool xo = false, yo = false;
        srv::steps.push_back([&] { xo = x->fd < 0; yo = y->fd < 0; });
        srv::run(sv);
        alike(x->out, xo, soloA);
        alike(y->out, yo, soloB);
        return 0;
    }
    if (mode == 6) {      // one of several clients ends, whenever and however
        Http2Server sv(srv::cleartext());
        routes(sv.router());
        auto sc = script(0);
        Solo solo = alone(sc);
        std::vector<net::Sock*> c;
        size_t victim = (size_t)sym_choose((uint64_t)a, "victim"), when = (size_t)sym_choose(4, "when"), how = (size_t)sym_choose(4, "how");
        net::reverse = sym_bool("reverse");
        srv::steps.push_back([&] { if (sym_param(2)) net::kFirst = 0; for (int i = 0; i < a; ++i) c.push_back(net::client()); });
        for (size_t i = 0; i < 4; ++i) srv::steps.push_back([&, i] {
            for (size_t j = 0; j < c.size(); ++j) if (c[j]->fd >= 0) add(c[j]->in, sc[i]);
            if (i == when && c[victim]->fd >= 0) switch (how) {
                case 0: c[victim]->eof = true; break;
                case 1: add(c[victim]->in, frame(7, 0, 0, Bytes(8))); break;
                case 2: add(c[victim]->in, frame(1, 5, 99, {0x80})); break;
                case 3: c[victim]->hup = true; break;
            }
        });
        std::vector<bool> over;
        srv::steps.push_back([&] { for (auto* x : c) over.push_back(x->fd < 0); });
        srv::run(sv);
        sym_assert(over.size() == c.size() && over[victim], "a client that ends is let go");
        for (size_t j = 0; j < c.size(); ++j) if (j != victim) alike(c[j]->out, over[j], solo);
        return 0;
    }
    if (mode == 7) {      // clients leave and others come, with the numbers that became free
        Http2Server sv(srv::cleartext());
        routes(sv.router());
        auto sc = script(0);
        Solo solo = alone(sc);
        std::vector<net::Sock*> c;
        size_t g1 = (size_t)sym_choose((uint64_t)a, "first"), g2 = (size_t)sym_choose((uint64_t)a, "second"), more = 1 + (size_t)sym_choose(3, "more");
        std::map<net::Sock*, size_t> at;
        srv::steps.push_back([&] { for (int i = 0; i < a; ++i) c.push_back(net::client()); });
        auto piece = [&](bool all) { for (size_t j = 0; j < c.size(); ++j) if (j != g1 && j != g2) for (size_t& i = at[c[j]]; i < 4; ) { add(c[j]->in, sc[i++]); if (!all) break; } };
        srv::steps.push_back([&] { piece(false); });
        srv::steps.push_back([&] { c[g1]->eof = c[g2]->eof = true; });
        srv::steps.push_back([&] { for (size_t i = 0; i < more; ++i) c.push_back(net::client()); });
        srv::steps.push_back([&] { piece(false); });
        srv::steps.push_back([&] { c.push_back(net::client()); });
        srv::steps.push_back([&] { piece(false); });
        srv::steps.push_back([&] { piece(true); });
        std::vector<bool> over;
        srv::steps.push_back([&] { for (auto* x : c) over.push_back(x->fd < 0); });
        srv::run(sv);
        for (size_t j = 0; j < c.size(); ++j) {
            if (j == g1 || j == g2) sym_assert(over[j], "a client that ends is let go");
            else alike(c[j]->out, over[j], solo);
        }
        return 0;
    }
    if (mode == 5) {      // nothing runs before; what each has to receive is known from what it asks
        Router r; routes(r);
        Peer p[2]; std::vector<std::string> due[2];
        for (int i = 0; i < 2; ++i) {
            int k = i ? b : a;
            p[i].s = script(k);
            if (k == 0) due[i] = {said[0], said[1] + said[0], said[1] + said[0]};
            if (k == 5) due[i] = {said[1], said[2], said[3]};
            if (k == 7) due[i] = {said[0], said[0], said[1]};
            p[i].open(r);
        }
        p[0].piece(); p[1].piece();
        for (size_t left = 6; left; --left) {
            size_t who = (size_t)sym_choose(2, "next");
            sym_assume(p[who].at < 4);
            p[who].piece();
        }
        for (int i = 0; i < 2; ++i) {
            sym_assert(!p[i].over, "a connection ends exactly when it would end alone");
            std::map<uint32_t, Bytes> got;
            for (auto& f : Out(p[i].w.out).f) if (f.type == 0) add(got[f.sid], f.p);
            for (uint32_t k = 0; k < 3; ++k) sym_assert(same(got[1 + 2 * k], Bytes(due[i][k].begin(), due[i][k].end())), "a connection receives what it asked for");
        }
        sym_reach("alike");
        return 0;
    }
    Router r; routes(r);
    size_t n = mode == 3 ? 3 : 2;
    std::vector<std::unique_ptr<Peer>> p;
    for (size_t i = 0; i < n; ++i) { p.push_back(std::make_unique<Peer>()); p[i]->s = script(i == 0 ? a : i == 1 ? b : 1); }
    std::vector<Solo> solo(n);       // first, so that nothing of the other runs is left behind
    bool order = mode != 1 && mode != 2 && sym_bool("order");
    for (size_t i = n; i--;) { size_t j = order ? n - 1 - i : i; solo[j] = alone(p[j]->s, mode == 3 ? 3 : 4); }
    if (mode == 1) {      // one takes another's place
        p[0]->open(r);
        for (uint64_t k = sym_choose(5, "pieces"); k; --k) p[0]->piece();
        p[0]->c.reset();
        p[1]->open(r);
        while (p[1]->at < 4) p[1]->piece();
        alike(p[1]->w.out, p[1]->over, solo[1]);
        return 0;
    }
    for (auto& q : p) q->open(r);
    if (mode == 2) {      // one peer takes nothing for a while
        uint64_t from = sym_choose(4, "from"), to = sym_choose(4, "to");
        for (size_t i = 0; i < 4; ++i) {
            if (i == from) p[0]->w.onWrite = refuse;
            p[0]->piece(); p[1]->piece();
            if (i == to) p[0]->w.onWrite = nullptr;
        }
        p[0]->w.onWrite = nullptr;
        p[0]->step();
    } else {
        size_t each = mode == 3 ? 3 : 4, left = (each - 1) * n;
        if (order) { for (auto& q : p) q->piece(); } else for (size_t i = n; i--;) p[i]->piece();
        while (left) {
            size_t who = (size_t)sym_choose(n, "next");
            sym_assume(p[who]->at < each);
            p[who]->piece(); --left;
        }
        for (size_t i = 0; i < n; ++i) alike(p[i]->w.out, p[i]->over, solo[i]);
        return 0;
    }
    for (size_t i = 0; i < n; ++i) alike(p[i]->w.out, p[i]->over, solo[i]);
    return 0;
}
