//@ py: K = ["runtime","logic","int","string","struct","badalloc","nullptr","chars","nested","derived","outofrange","mw_before","mw_after","empty"]
//@ cases-quick: [(f"throw_{k}", [0,i,0]) for i, k in enumerate(K)] + [(f"missing{k}_{t}", [1,k,t]) for k in range(4) for t in (0,1,2)] + [("mix2",[2,2,0]),("mix3",[2,3,0]),("anyblock1",[3,1,0]),("partial_then_throw",[4,0,0])] + [(f"text{n}",[5,n,0]) for n in (1,2,3)]
//@ cases-thorough: [(f"throw_{k}", [0,i,0]) for i, k in enumerate(K)] + [(f"missing{k}_{t}", [1,k,t]) for k in range(4) for t in (0,1,2,3)] + [("mix2",[2,2,0]),("mix3",[2,3,0]),("mix4",[2,4,0]),("anyblock2",[3,2,0]),("anyblock3",[3,3,0]),("partial_then_throw",[4,0,0])] + [(f"text{n}",[5,n,0]) for n in (1,2,3,5)]
//@ bounds: handlers and middlewares that throw values of 11 types (exceptions, integers, strings, pointers, user types); header lists without a method, a path or both, with 0..2 (quick) / 3 arbitrary other headers; every sequence of up to 3 / 4 requests out of good, throwing (two ways) and incomplete ones; every one-stream id; every block of 1 / up to 3 arbitrary bytes that decodes; paths and methods of up to three / five arbitrary bytes
//@ outside: handlers that never return
//@ reach: failed500 bad400 good
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C18: a failing handler or incomplete request costs only that request.
#include "../env/conn.h"
#include <new>
using namespace env;
struct Custom { int a; };
struct Derived : std::exception { const char* what() const noexcept override { return "derived"; } };
[[noreturn]] static void boom(int k) {
    switch (k) {
        case 0: throw std::runtime_error("boom");
        case 1: throw std::logic_error("boom");
        case 2: throw 42;
        case 3: throw std::string("boom");
        case 4: throw Custom{3};
        case 5: throw std::bad_alloc();
        case 6: throw nullptr;
        case 7: throw "boom";
        case 8: try { throw std::runtime_error("inner"); } catch (...) { throw 7u; }
        case 9: throw Derived{};
        default: throw std::out_of_range("boom");
    }
}
static int thrown = 0;
struct Reply { uint32_t sid; std::string status; size_t body; bool ended; };
static std::vector<Reply> replies(Session& s) {
    Out o(s.w.out);
    sym_assert(o.whole, "whole frames are sent");
    std::vector<Reply> v;
    ref::Table t{4096};
    for (auto& f : o.f) {
        if (f.type == 1) {
            std::vector<ref::Header> h;
            sym_assert(ref::blockDecode(f.p.data(), f.p.size(), t, h, {1 << 20, 65536}), "the header block decodes");
            sym_assert(!h.empty() && h[0].first == ":status", "each response carries its :status header first");
            sym_assert((f.flags & 4) != 0, "END_HEADERS is set");
            v.push_back({f.sid, h[0].second, 0, (f.flags & 1) != 0});
        } else if (f.type == 0) { sym_assert(!v.empty() && v.back().sid == f.sid && !v.back().ended, "DATA belongs to the response before it"); v.back().body += f.len; v.back().ended = f.flags & 1; }
    }
    return v;
}
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1), t = (int)sym_param(2);
    Session s;
    int where = mode == 0 && k >= 11 ? k : 0;
    s.r.add_middleware([where](RouteHandler h) {
        return [h, where](const HttpRequest& q) -> HttpResponse {
            if (q.path == "/boom" && where == 11) boom(thrown = 2);
            auto r = h(q);
            if (q.path == "/boom" && where == 12) boom(thrown = 0);
            return r;
        };
    });
    s.capture("/ok", "GET", {200, {'o', 'k'}, {{"x-k", "v"}}});
    s.r.add_route("/boom", "GET", [&](const HttpRequest& q) -> HttpResponse {
        s.seen.push_back({q.method, q.path, {}});
        if (where == 12) return {200, {1}};
        if (where == 13) { std::function<HttpResponse()> f; return f(); }      // bad_function_call
        if (mode == 4) { HttpResponse r{200, {1, 2, 3}, {{"x", "y"}}}; boom(2); }
        boom(mode == 0 ? (k > 10 ? 0 : k) : thrown);
    });
    s.open();
    Bytes all = preface();
    struct W { uint32_t sid; const char* status; };
    std::vector<W> want;
    uint32_t sid0 = sym_val<uint32_t>("stream"); sym_assume(sid0 != 0 && (sid0 >> 31) == 0);
    auto incomplete = [&](int kind, int extra) {
        Bytes b;
        auto more = [&] { for (int i = 0; i < extra; ++i) { std::string v(1, 0); sym_make(v.data(), 1, "value"); std::string n = "x"; sym_make(n.data(), 1, "name"); sym_assume(n[0] != ':'); ref::putLiteral(b, n, v); } };
        if (kind == 1) ref::putLiteral(b, ":method", "GET");
        if (kind == 2) ref::putLiteral(b, ":path", "/ok");
        more();
        if (kind == 3) { ref::putLiteral(b, ":path", "/ok"); ref::putLiteral(b, ":status", "200"); }
        return b;
    };
    if (mode == 0 || mode == 4) {
        add(all, request(1, "/ok")); want.push_back({1, "200"});
        add(all, request(sid0, "/boom")); want.push_back({sid0, "500"});
        add(all, request(5, "/ok")); want.push_back({5, "200"});
        add(all, request(7, "/boom")); want.push_back({7, "500"});
        add(all, request(9, "/ok")); want.push_back({9, "200"});
        sym_reach("failed500");
    } else if (mode == 1) {
        add(all, frame(1, 5, sid0, incomplete(k, t))); want.push_back({sid0, "400"});
        add(all, request(5, "/ok")); want.push_back({5, "200"});
        add(all, frame(1, 5, 7, incomplete(k, 0))); want.push_back({7, "400"});
        add(all, request(9, "/ok")); want.push_back({9, "200"});
        sym_reach("bad400");
    } else if (mode == 2) {
        for (int i = 0; i < k; ++i) {
            uint32_t id = 2 * i + 1;
            switch (sym_choose(4, "what")) {
                case 0: add(all, request(id, "/ok")); want.push_back({id, "200"}); sym_reach("good"); break;
                case 1: thrown = 2; add(all, request(id, "/boom")); want.push_back({id, "500"}); break;
                case 2: add(all, frame(1, 5, id, incomplete((int)sym_choose(3, "missing"), 0))); want.push_back({id, "400"}); break;
                case 3: add(all, request(id, "/nowhere")); want.push_back({id, "404"}); break;
            }
        }
        thrown = (int)sym_choose(2, "type") * 2;
        add(all, request(91, "/ok")); want.push_back({91, "200"});
    } else if (mode == 5) {            // whatever the path and method are made of, the request is complete
        std::string m(k, 0), p(k, 0);
        sym_make(m.data(), k, "method"); sym_make(p.data(), k, "path");
        Bytes b;
        if (sym_bool("method odd")) { ref::putLiteral(b, ":method", m); ref::putLiteral(b, ":path", "/x"); }
        else { ref::putLiteral(b, ":method", "GET"); sym_assume(k != 3 || p != "/ok"); ref::putLiteral(b, ":path", p); }
        add(all, frame(1, 5, sid0, b)); want.push_back({sid0, "404"});
        add(all, request(9, "/ok")); want.push_back({9, "200"});
    } else {
        Bytes b(k); sym_make(b.data(), k, "block");
        ref::Table rt{65536};
        std::vector<ref::Header> h;
        sym_assume(ref::blockDecode(b.data(), b.size(), rt, h));
        bool full = header(h, ":method") && header(h, ":path");
        add(all, frame(1, 5, sid0, b)); want.push_back({sid0, full ? "404" : "400"});
        add(all, request(9, "/ok")); want.push_back({9, "200"});
    }
    s.give(all);
    sym_assert(!s.over, "the connection stays usable");
    auto got = replies(s);
    sym_assert(got.size() == want.size(), "each request gets its response");
    for (size_t i = 0; i < got.size(); ++i) {
        sym_assert(got[i].sid == want[i].sid, "the response is on the stream of its request");
        sym_assert(got[i].status == want[i].status, "each request gets the status it earns");
        sym_assert(got[i].ended, "each response is complete");
        if (got[i].status == "200") sym_assert(got[i].body == 2, "good requests are answered normally");
    }
    sym_observe("out", s.w.out.data(), s.w.out.size() < 400 ? s.w.out.size() : 400);
    return 0;
}
