//@ cases-quick: [(f"chain_{m}_{t}", [0,m,t]) for m in range(4) for t in range(7)] + [("again",[1,0]),("order",[2,0]),("two",[3,0]),("whole",[4,0]),("bare",[5,0]),("many",[6,0])]
//@ cases-thorough: [(f"chain_{m}_{t}", [0,m,t]) for m in range(6) for t in range(7)] + [("again",[1,0]),("order",[2,0]),("two",[3,0]),("whole",[4,0]),("bare",[5,0]),("many",[6,0])]
//@ bounds: up to three (thorough: five) middlewares, each passing on, replacing the response, changing it, answering by itself, or passing a changed request on, in every combination, and chains of six to thirteen with one such; requests served by a route, a static mapping, the 404 fallback (also with an empty path or method) or a failing handler; middlewares registered before, between and after routes, of which there are none to six, and one to three static mappings; repeated and interleaved requests; a middleware that throws or calls the next one again, over a connection
//@ outside: more middlewares; middlewares that keep and call the next handler after they return
//@ reach: route static none short
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C30: middleware wraps every request, in registration order.
#include "../env/conn.h"
#include "../env/fs.h"
#include "router.h"
using namespace ion;
enum Behave { Pass, Replace, Change, Short, Rewrite, N };
struct Log { std::vector<std::string> ev; };
static Log lg;
static HttpResponse resp(int code, const std::string& b) { return HttpResponse{(uint16_t)code, env::Bytes(b.begin(), b.end()), {}}; }
static void layer(Router& r, int i, Behave b) {
    std::string n = std::to_string(i);
    r.add_middleware([n, b](RouteHandler next) -> RouteHandler {
        return [n, b, next](const HttpRequest& q) -> HttpResponse {
            lg.ev.push_back("in" + n);
            HttpResponse x{};
            if (b == Short) x = resp(299, "short" + n);
            else if (b == Rewrite) { HttpRequest c = q; c.headers.push_back({"via", n}); x = next(c); }
            else x = next(q);
            if (b == Replace) x = resp(210, "replaced" + n);
            if (b == Change) { x.headers.push_back({"by", n}); }
            lg.ev.push_back("out" + n);
            return x;
        };
    });
}
static void world(Router& r, int extra = 0, int mappings = 0) {
    fsm::start();
    for (int i = 0; i < extra; ++i) r.add_route("/e" + std::to_string(i), "GET", [](const HttpRequest&) { return resp(201, "extra"); });
    auto* d = fsm::dir(fsm::root, "one"); fsm::file(d, "a", std::string("file"));
    r.add_route("/r", "GET", [](const HttpRequest& q) { lg.ev.push_back("route"); std::string v; for (auto& h : q.headers) if (h.name == "via") v += h.value; return resp(200, "route" + v); });
    r.add_route("/bad", "GET", [](const HttpRequest&) -> HttpResponse { lg.ev.push_back("bad"); throw std::runtime_error("bad"); });
    for (int i = 0; i < mappings; ++i) r.add_static_handler(std::make_unique<StaticFileHandler>("/other" + std::to_string(i), "/one"));
    r.add_static_handler(std::make_unique<StaticFileHandler>("/st", "/one"));
}
static std::string body(const HttpResponse& x) { return std::string(x.body.begin(), x.body.end()); }
// one request through middlewares b, target t: 0 route, 1 static, 2 nothing, 3 failing handler, 4 static but missing
static void once(Router& r, const std::vector<Behave>& b, int t) {
    static const char* paths[] = {"/r", "/st/a", "/none", "/bad", "/st/none", "", "*"};
    static const char* methods[] = {"GET", "HEAD", "POST", ""};
    std::string p = paths[t], m = methods[sym_choose(t == 1 || t == 4 ? 2 : t == 2 || t > 4 ? 4 : 1, "method")];
    lg.ev.clear();
    HttpRequest q{.method = m, .path = p, .headers = {}};
    auto h = r.get_handler(p, m);
    sym_assert(lg.ev.empty(), "nothing runs before the request is handled");
    HttpResponse x{};
    bool threw = false;
    try { x = h(q); } catch (const std::runtime_error&) { threw = true; }
    // what has to happen
    std::vector<std::string> ev; std::string bd, via; int code = 0; std::vector<std::string> by;
    size_t depth = 0;
    bool cut = false;
    for (; depth < b.size() && !cut; ++depth) { ev.push_back("in" + std::to_string(depth)); if (b[depth] == Short) cut = true; if (b[depth] == Rewrite) via += std::to_string(depth); }
    bool expThrow = false;
    if (!cut) {
        if (t == 0) { ev.push_back("route"); code = 200; bd = "route" + via; sym_reach("route"); }
        if (t == 1) { code = 200; bd = m == "GET" ? "file" : ""; sym_reach("static"); }
        if (t == 2 || t >= 4) { code = 404; sym_reach("none"); }
        if (t == 3) { ev.push_back("bad"); expThrow = true; }
    } else sym_reach("short");
    if (!expThrow) for (size_t i = depth; i-- > 0;) {
        std::string n = std::to_string(i);
        if (b[i] == Short) { code = 299; bd = "short" + n; by.clear(); }
        if (b[i] == Replace) { code = 210; bd = "replaced" + n; by.clear(); }
        if (b[i] == Change) by.push_back(n);
        ev.push_back("out" + n);
    }
    sym_assert(threw == expThrow, "a failing handler's exception reaches the caller and nothing else throws");
    sym_assert(lg.ev == ev, "each middleware runs exactly once, the first registered outermost");
    if (expThrow) return;
    std::vector<std::string> got;
    for (auto& h : x.headers) if (h.name == "by") got.push_back(h.value);
    sym_assert(x.status_code == code && body(x) == bd && got == by, "the response is the outermost middleware's");
}
int harness_main() {
    int mode = (int)sym_param(0), n = (int)sym_param(1);
    auto any = [] { uint8_t v = sym_val<uint8_t>("behaviour"); sym_assume(v < N); return (Behave)sym_concretize(v); };
    std::vector<Behave> b;
    if (mode == 0) {
        Router r; world(r);
        for (int i = 0; i < n; ++i) { b.push_back(any()); layer(r, i, b.back()); }
        once(r, b, (int)sym_param(2));
    } else if (mode == 1) {
        Router r; world(r);
        for (int i = 0; i < 2; ++i) { b.push_back(any()); layer(r, i, b.back()); }
        for (int i = 0; i < 3; ++i) once(r, b, i);
        std::string p = "/r", m = "GET";
        auto h1 = r.get_handler(p, m), h2 = r.get_handler(p, m);       // two at a time
        HttpRequest q{.method = m, .path = p, .headers = {}};
        lg.ev.clear(); auto x = h1(q); auto e1 = lg.ev; lg.ev.clear(); auto y = h2(q);
        sym_assert(e1 == lg.ev && body(x) == body(y), "every request passes through the whole chain");
        lg.ev.clear(); auto z = h1(q);
        sym_assert(e1 == lg.ev && body(x) == body(z), "every request passes through the whole chain");
    } else if (mode == 2) {
        Router r;
        size_t before = sym_choose(3, "before"); int extra = (int)sym_choose(5, "extra");
        int i = 0;
        for (; (size_t)i < before; ++i) { b.push_back(any()); layer(r, i, b.back()); }
        world(r, extra, extra % 3);
        if (sym_bool("early")) once(r, b, (int)sym_choose(3, "target"));
        for (; i < 2; ++i) { b.push_back(any()); layer(r, i, b.back()); }
        for (int t = 0; t < 3; ++t) once(r, b, t);
    } else if (mode == 3) {
        Router r, s; world(r); world(s);
        b.push_back(any()); layer(r, 0, b[0]);
        std::vector<Behave> c{any()}; layer(s, 0, c[0]);
        int t = (int)sym_choose(3, "target");
        once(r, b, t); once(s, c, t); once(r, b, t);
    } else if (mode == 6) {     // a long chain, one of them doing something
        Router r; world(r);
        size_t len = 6 + (size_t)sym_choose(8, "length"), at = (size_t)sym_choose(3, "at");
        at = at == 0 ? 0 : at == 1 ? len / 2 : len - 1;
        Behave one = any();
        for (size_t i = 0; i < len; ++i) { b.push_back(i == at ? one : i % 2 ? Change : Pass); layer(r, (int)i, b.back()); }
        once(r, b, (int)sym_choose(3, "target"));
    } else if (mode == 5) {     // nothing but middlewares, or nothing but one kind of target
        Router r;
        fsm::start();
        auto* d = fsm::dir(fsm::root, "one"); fsm::file(d, "a", std::string("file"));
        uint64_t w = sym_choose(3, "what");
        if (w == 1) r.add_route("/other", "GET", [](const HttpRequest&) { return resp(200, "no"); });
        if (w == 2) r.add_static_handler(std::make_unique<StaticFileHandler>("/st", "/one"));
        for (int i = 0; i < 2; ++i) { b.push_back(any()); layer(r, i, b.back()); }
        once(r, b, 2); once(r, b, w == 2 ? 1 : 2); once(r, b, 2);
    } else {
        // over a connection, with methods of all kinds
        env::Session s;
        int calls = 0;
        uint64_t what = sym_choose(4, "what");
        s.r.add_route("/r", "GET", [](const HttpRequest&) { return resp(200, "route"); });
        s.r.add_middleware([&calls, what](RouteHandler next) -> RouteHandler {
            return [&calls, what, next](const HttpRequest& q) -> HttpResponse {
                ++calls;
                if (what == 1) throw std::runtime_error("middleware");
                if (what == 2) { next(q); return next(q); }
                if (what == 3) return resp(234, "");
                return next(q);
            };
        });
        s.open();
        const char* ms[] = {"GET", "HEAD", "POST", "DELETE"};
        std::string m = ms[sym_choose(4, "method")], p = sym_bool("known") ? "/r" : "/x";
        env::Bytes in = env::preface(); env::add(in, env::request(1, p, m)); env::add(in, env::request(3, p, m));
        s.give(in);
        sym_assert(calls == 2, "every request passes through the middleware exactly once");
        env::Out o(s.w.out);
        int heads = 0; for (auto& f : o.f) heads += f.type == 1;
        sym_assert(heads == 2, "every request is answered");
    }
    return 0;
}
