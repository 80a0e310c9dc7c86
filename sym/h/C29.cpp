//@ cases-quick: [(f"routes_{n}_{l}", [0,n,l]) for n in (0,1,2,3) for l in (0,1,2,3)] + [(f"methods_{l}", [1,l]) for l in (0,2,3,4,5)] + [(f"static_{s}_{l}", [2,s,l]) for s in range(6) for l in range(5)] + [("valid",[3,0]),("many",[4,0]),("later",[5,0]),("empty",[7,0]),("shadow",[9,0])] + [(f"long_{l}",[6,l]) for l in (15,16,17,64,255,256,2000)] + [(f"static_long_{l}",[8,l]) for l in (255,256,1023,1024,2500,4000)]
//@ cases-thorough: [(f"routes_{n}_{l}", [0,n,l]) for n in (0,1,2,3,4) for l in (0,1,2,3,4)] + [(f"methods_{l}", [1,l]) for l in range(9)] + [(f"static_{s}_{l}", [2,s,l]) for s in range(6) for l in range(7)] + [("valid",[3,0]),("many",[4,0]),("later",[5,0]),("empty",[7,0]),("shadow",[9,0])] + [(f"long_{l}",[6,l]) for l in (15,16,17,64,255,256,1000,2000,9000)] + [(f"static_long_{l}",[8,l]) for l in (255,256,1023,1024,2047,2500,4000)]
//@ bounds: up to three (thorough: four) routes whose paths and methods are arbitrary strings, requests with arbitrary paths and methods of up to five bytes, paths of up to 2000 bytes that differ in any one byte and, under a static mapping, of up to 4000; routes and requests whose path or method is empty; none to 40 other routes beside one that a static mapping shadows, for each method; up to two static mappings with equal, nested and disjoint prefixes together with routes inside them; handlers used long after the strings they were looked up with are gone
//@ outside: a path that continues a static prefix inside a path segment ("/st" and "/stx"), which the statement leaves open; routes added while a handler is held
//@ reach: route static none
//@ sources: lib/(router|static_file_handler|file_reader)
// C29: requests are routed by exact path and method, first match first.
#include "../env/fs.h"
#include "router.h"
using namespace ion;
static HttpResponse answer(int i) { return HttpResponse{200, {(uint8_t)i}, {}}; }
static std::string text(size_t n, const char* name) { std::string s(n, 0); sym_make(s.data(), n, name); return s; }
static bool equal(const std::string& a, const std::string& b) { if (a.size() != b.size()) return false; unsigned bad = 0; for (size_t i = 0; i < a.size(); ++i) bad |= (unsigned char)(a[i] ^ b[i]); return !bad; }
// asks with strings that are gone when the handler runs
static HttpResponse ask(const Router& r, const std::string& path, const std::string& method) {
    RouteHandler h;
    {
        auto p = std::make_unique<std::string>(path); auto m = std::make_unique<std::string>(method);
        h = r.get_handler(*p, *m);
        std::fill(p->begin(), p->end(), '#'); std::fill(m->begin(), m->end(), '#');
    }
    HttpRequest req{.method = method, .path = path, .headers = {}};
    return h(req);
}
struct Rt { std::string path, method; };
static int expected(const std::vector<Rt>& rt, const std::string& p, const std::string& m) {
    for (size_t i = 0; i < rt.size(); ++i) if (equal(rt[i].path, p) && equal(rt[i].method, m)) return (int)i;
    return -1;
}
static void expectRoute(const HttpResponse& resp, int i) {
    if (i < 0) { sym_assert(resp.status_code == 404, "a request without a route gives 404"); sym_reach("none"); return; }
    sym_assert(resp.status_code == 200 && resp.body.size() == 1 && resp.body[0] == 10 + i, "the first route with this path and method answers");
    sym_reach("route");
}
int harness_main() {
    int mode = (int)sym_param(0);
    Router r;
    std::vector<Rt> rt;
    auto add = [&](const std::string& p, const std::string& m) { int i = (int)rt.size(); rt.push_back({p, m}); r.add_route(p, m, [i](const HttpRequest&) { return answer(10 + i); }); };
    if (mode == 0) {
        // arbitrary paths, methods told apart by one byte
        size_t n = (size_t)sym_param(1), l = (size_t)sym_param(2);
        for (size_t i = 0; i < n; ++i) add(text(i == 2 && l ? l - 1 : l, "route"), "M" + text(1, "method"));
        std::string p = text(l, "path"), m = "M" + text(1, "asked");
        expectRoute(ask(r, p, m), expected(rt, p, m));
        if (l) { p.pop_back(); expectRoute(ask(r, p, m), expected(rt, p, m)); }
    } else if (mode == 1) {
        size_t l = (size_t)sym_param(1);
        add("/", "GET"); add("/", "POST"); add("/x", "HEAD"); add("/", text(l, "method"));
        std::string m = text(l, "asked");
        std::string p = sym_bool("x") ? "/x" : "/";
        expectRoute(ask(r, p, m), expected(rt, p, m));
    } else if (mode == 2) {
        int s = (int)sym_param(1); size_t l = (size_t)sym_param(2);
        fsm::start();
        const char* names[] = {"one", "two"};
        for (int i = 0; i < 2; ++i) {
            auto* d = fsm::dir(fsm::root, names[i]);
            fsm::file(d, "index.html", fsm::Bytes{(uint8_t)(60 + i)});
            fsm::file(d, "a", fsm::Bytes{(uint8_t)(70 + i)});
            auto* e = fsm::dir(d, "s"); fsm::file(e, "a", fsm::Bytes{(uint8_t)(80 + i)});
        }
        static const char* pre[][2] = {{"/s", nullptr}, {"/s", "/t"}, {"/s", "/s/s"}, {"/s/s", "/s"}, {"/s/", "/"}, {"/s", "/s"}};
        std::vector<std::string> prefixes;
        for (int i = 0; i < 2; ++i) if (pre[s][i]) { prefixes.push_back(pre[s][i]); r.add_static_handler(std::make_unique<StaticFileHandler>(pre[s][i], std::string("/") + names[i])); }
        add("/s/a", "POST"); add("/s/a", sym_bool("get") ? "GET" : "PUT"); add("/q", "GET");
        std::string tail = text(l, "tail");
        bool plain = true; for (char c : tail) plain = plain & ((c == '/') | (c == 'a') | (c == 's') | (c == 'q') | (c == 't'));
        sym_assume(plain);
        std::string p = "/" + tail;
        const char* ms[] = {"GET", "HEAD", "POST", "PUT", "get", "GETX", ""};
        uint8_t mi = sym_val<uint8_t>("method"); sym_assume(mi < 7);
        std::string m = ms[sym_concretize(mi)];
        auto resp = ask(r, p, m);
        int e = expected(rt, p, m);
        if (e >= 0) { expectRoute(resp, e); return 0; }
        bool fetch = m == "GET" || m == "HEAD";
        bool any = false, open = false;
        std::vector<int> possible;                       // which file each matching mapping names
        for (size_t i = 0; i < prefixes.size(); ++i) {
            auto& x = prefixes[i];
            if (!p.starts_with(x)) continue;
            std::string rest = p.substr(x.size());
            if (!rest.empty() && rest[0] != '/' && x.back() != '/') { open = true; continue; }
            any = true;
            if (!rest.empty() && rest[0] == '/') rest = rest.substr(1);
            int v = rest.empty() ? 60 : rest == "a" ? 70 : rest == "s/a" ? 80 : 0;
            possible.push_back(v ? v + (int)i : 0);
        }
        if (!fetch) { sym_assert(resp.status_code == 404, "static mappings answer only GET and HEAD"); sym_reach("none"); return 0; }
        if (!any) { if (!open) { sym_assert(resp.status_code == 404, "a request without a route gives 404"); sym_reach("none"); } return 0; }
        if (open) return 0;
        bool ok = false, odd = p.find("//") != std::string::npos;
        for (int v : possible) {
            if (!v) ok = ok || (int)resp.status_code >= 400 || odd;
            else if (resp.status_code == 200) ok = ok || odd || (m == "HEAD" ? resp.body.empty() : resp.body.size() == 1 && resp.body[0] == v);
        }
        sym_assert(ok, "a request under a static prefix is answered by its mapping");
        sym_reach("static");
    } else if (mode == 3) {
        fsm::start();
        auto* d = fsm::dir(fsm::root, "one"); fsm::file(d, "a-file-with-a-long-name", fsm::Bytes{1, 2, 3});
        r.add_static_handler(std::make_unique<StaticFileHandler>("/static-prefix", "/one"));
        add("/a-route-with-a-long-path-too", "GET");
        std::vector<RouteHandler> hs;
        bool head = sym_bool("head");
        {
            std::string p = "/static-prefix/a-file-with-a-long-name", q = "/a-route-with-a-long-path-too", n = "/none-of-all-the-routes-above", m = head ? "HEAD" : "GET", g = "GET";
            hs = {r.get_handler(p, m), r.get_handler(q, g), r.get_handler(n, m)};
            p = q = n = m = g = std::string(30, '!');
        }
        HttpRequest req{.method = "other", .path = "/other", .headers = {}};
        for (int i = 0; i < 2; ++i) {
            auto a = hs[0](req), b = hs[1](req), c = hs[2](req);
            sym_assert(a.status_code == 200 && a.body.size() == (head ? 0 : 3), "a handler stays valid when its strings are gone");
            sym_reach("static");
            expectRoute(b, 0); expectRoute(c, -1);
        }
    } else if (mode == 4) {
        // many routes and repeated requests
        for (int i = 0; i < 40; ++i) { std::string p = "/r"; p += (char)('a' + i % 20); add(p, i < 20 ? "GET" : "POST"); }
        std::string p = "/r" + text(1, "path");
        for (int i = 0; i < 2; ++i) { std::string m = sym_bool("post") ? "POST" : "GET"; expectRoute(ask(r, p, m), expected(rt, p, m)); }
    } else if (mode == 5) {
        // routes registered after requests were answered
        std::string p = "/" + text(2, "path"), m = sym_bool("post") ? "POST" : "GET";
        expectRoute(ask(r, p, m), -1);
        add("/" + text(2, "first"), "GET");
        expectRoute(ask(r, p, m), expected(rt, p, m));
        add("/" + text(2, "second"), m);
        expectRoute(ask(r, p, m), expected(rt, p, m));
        Router other;
        expectRoute(ask(other, p, m), -1);
    } else if (mode == 7) {
        std::string t1 = text(1, "t");
        const std::string some[] = {"", "/", t1};
        for (int i = 0; i < 2; ++i) { std::string p = some[sym_choose(3, "path")], m = sym_bool("no_method") ? "" : "GET"; add(p, m); }
        std::string p = some[sym_choose(3, "asked")];
        for (const char* m : {"GET", "", "POST"}) expectRoute(ask(r, p, m), expected(rt, p, m));
    } else if (mode == 8) {
        size_t l = (size_t)sym_param(1);
        fsm::start();
        auto* d = fsm::dir(fsm::root, "one"); auto* e = fsm::dir(d, "dd"); fsm::file(e, "a", fsm::Bytes{42});
        r.add_static_handler(std::make_unique<StaticFileHandler>("/s", "/one"));
        std::string p = "/s";
        while (p.size() + 6 < l) p += "/dd/..";
        while (p.size() + 5 < l) p += "/.";
        p += "/dd/a";
        add(p, "POST"); add(p + "a", "GET");
        for (const char* m : {"GET", "HEAD"}) { auto x = ask(r, p, m); sym_assert(x.status_code == 200 && x.body.size() == (m[0] == 'G'), "a request under a static prefix is answered by its mapping"); }
        expectRoute(ask(r, p, "POST"), 0); expectRoute(ask(r, p + "a", "GET"), 1); expectRoute(ask(r, p, "PUT"), -1);
        std::string q(l, 'q'); q[0] = '/'; q[1] = 's'; q[2] = '/';
        sym_assert(ask(r, q, "GET").status_code >= 400, "nothing is served that does not exist");
        sym_reach("static");
    } else if (mode == 9) {            // a route under a static prefix, among many others or none
        fsm::start();
        auto* d = fsm::dir(fsm::root, "one"); fsm::file(d, "a", fsm::Bytes{42});
        if (sym_bool("mapping first")) r.add_static_handler(std::make_unique<StaticFileHandler>("/s", "/one"));
        static const size_t ns[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 40};
        size_t others = ns[sym_choose(11, "others")], at = sym_choose(3, "at");
        at = at == 0 ? 0 : at == 1 ? others / 2 : others;
        static const char* ms[] = {"GET", "HEAD", "POST", "OPTIONS"};
        const char* m = ms[sym_choose(4, "method")];
        for (size_t i = 0; i <= others; ++i) { if (i == at) add("/s/a", m); if (i < others) { std::string p = i % 2 ? "/s/r" : "/r"; p += (char)('a' + i % 26); add(p, ms[i % 4]); } }
        if (others % 2 == 0) r.add_static_handler(std::make_unique<StaticFileHandler>("/s", "/one"));
        expectRoute(ask(r, "/s/a", m), expected(rt, "/s/a", m));
        expectRoute(ask(r, "/s/a", "PUT"), -1);
        expectRoute(ask(r, "/t/a", "HEAD"), -1);
        sym_reach("static");
    } else {
        size_t l = (size_t)sym_param(1);
        std::string p(l, 'p'); p[0] = '/';
        add(p, "GET");
        uint16_t at = sym_val<uint16_t>("at"); sym_assume(at < l && (l < 20 || at < 3 || at + 3 > l || at == l / 2));
        size_t i = (size_t)sym_concretize(at);
        std::string q = p; q[i] = (char)sym_val<uint8_t>("byte");
        expectRoute(ask(r, q, "GET"), expected(rt, q, "GET"));
        expectRoute(ask(r, p + "p", "GET"), -1);
        expectRoute(ask(r, p.substr(0, l - 1), "GET"), -1);
        expectRoute(ask(r, p + "?", "GET"), -1);
    }
    return 0;
}
