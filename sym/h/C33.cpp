//@ py: LONG=[(i*3600-40,i*3600+80) for i in (1,2,23,24,25,47,48,49,100*24,101*24,4000)]; SPLIT=[(0,70),(59*60+30,60*60+70),(23*3600+3550,86400+70),(86400+3550,86400+3670),(9*86400+86300,10*86400+130),(365*86400-70,365*86400+70)]
//@ cases-quick: [(f"count_{n}", [0,n]) for n in range(5)] + [(f"status_{k}", [1,k]) for k in (0,1,2,3,4,5,6,7,8,9,10,99,654)] + [(f"uptime_{i}", [2,i,a,b]) for i,(a,b) in enumerate(SPLIT)] + [("part",[3,0]),("many",[4,0]),("wire",[5,0]),("any",[6,0])]
//@ cases-thorough: [(f"count_{n}", [0,n]) for n in range(6)] + [(f"status_{k}", [1,k]) for k in (0,1,2,3,4,5,6,7,8,9,10,99,654)] + [(f"uptime_{i}", [2,i,a,b]) for i,(a,b) in enumerate(LONG)] + [("part",[3,0]),("many",[4,0]),("wire",[5,0]),("any",[6,0])]
//@ bounds: histories of up to four (thorough: six) requests to routes, static files, unknown paths, failing handlers and the page itself, with any of eight statuses each; every single status 0 to 1099 and around 10000 and 65500; 300 requests in a row; seven methods on ten paths, the page itself among them; every uptime in windows around the minute, hour, day, ten days and a year, with any fraction of a second; the page asked for directly and over a connection
//@ outside: requests answered before they are routed (no method or path); the latency shown
//@ assumptions: text streams behave as sym/include/text_streams.h, the random device as sym/env/random.h
//@ reach: counted uptime
//@ defs: -include text_streams.h
//@ sources: app/(server_stats|status_page) lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader)
// C33: the status page counts every request and its status.
#include "../env/conn.h"
#include "../env/fs.h"
#include "../env/wallclock.h"
#include "../env/random.h"
#include "status_page.h"
using namespace ion;
using env::Bytes;
// the words of the page's body, markup left out
static std::vector<std::string> words(const Bytes& b) {
    std::string s(b.begin(), b.end());
    size_t i = s.find("<body>");
    sym_assert(i != std::string::npos, "the status page has a body");
    std::vector<std::string> w; std::string cur;
    bool tag = false;
    for (; i < s.size(); ++i) {
        char c = s[i];
        bool end = tag || c == '<' || c == ' ' || c == '\n' || c == '\t';
        if (end) { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c;
        if (c == '<') tag = true; else if (c == '>') tag = false;
    }
    return w;
}

struct Shown { uint64_t total = 0; std::map<std::string, std::string> codes; std::vector<std::string> up; };
static uint64_t number(const std::string& s) { uint64_t v = 0; sym_assert(!s.empty(), "a number is shown"); for (char c : s) { sym_assert(c >= '0' && c <= '9', "a number is shown"); v = v * 10 + (uint64_t)(c - '0'); } return v; }
static Shown read(const HttpResponse& r) {
    sym_assert(r.status_code == 200, "the page is served");
    auto w = words(r.body);
    Shown x;
    size_t i = 0;
    auto until = [&](const char* n) { while (i < w.size() && w[i] != n) ++i; sym_assert(i < w.size(), "the page shows what it should"); ++i; };
    until("Uptime");
    while (i < w.size() && w[i] != "Requests") x.up.push_back(w[i++]);
    until("Requests");
    sym_assert(i < w.size(), "the page shows the request counter");
    x.total = number(w[i]);
    until("Codes");
    if (i < w.size() && w[i] == "No") return x;
    while (i + 1 < w.size() && w[i][0] >= '0' && w[i][0] <= '9') { sym_assert(!x.codes.count(w[i]), "each status is shown once"); x.codes[w[i]] = w[i + 1]; i += 2; }
    return x;
}
static HttpResponse ask(Router& r, const std::string& path, const std::string& method = "GET") {
    HttpRequest q{.method = method, .path = path, .headers = {}};
    auto h = r.get_handler(path, method);
    return h(q);
}
static void same(const Shown& s, uint64_t total, const std::map<int, uint64_t>& codes) {
    sym_assert(s.total == total, "the request counter equals the number of requests");
    size_t n = 0; uint64_t sum = 0;
    for (auto& [c, k] : codes) { if (!k) continue; ++n; auto it = s.codes.find(std::to_string(c)); sym_assert(it != s.codes.end() && number(it->second) == k, "each status counter equals the number of responses with it"); sum += k; }
    sym_assert(s.codes.size() == n, "only statuses that were sent are shown");
    sym_assert(sum <= total, "the statuses do not exceed the requests");
    sym_reach("counted");
}
static int next = 200;
static void world(Router& r) {
    r.add_route("/s", "GET", [](const HttpRequest&) { return HttpResponse{(uint16_t)next, Bytes{'b'}, {{"x", "y"}}}; });
    r.add_route("/bad", "GET", [](const HttpRequest&) -> HttpResponse { throw std::runtime_error("bad"); });
    r.add_route("/odd", "GET", [](const HttpRequest&) -> HttpResponse { throw 5; });
    r.add_static_handler(std::make_unique<StaticFileHandler>("/st", "/one"));
}
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1);
    fsm::start();
    auto* d = fsm::dir(fsm::root, "one"); fsm::file(d, "a", std::string("file"));
    Router r;
    uint64_t total = 0; std::map<int, uint64_t> codes;
    auto page = [&] { auto s = read(ask(r, "/_ion/status")); ++total; same(s, total, codes); ++codes[200]; return s; };
    auto request = [&](unsigned kind) {
        static const int st[] = {200, 204, 301, 404, 500, 503, 100, 999};
        ++total;
        if (kind < 8) { next = st[kind]; auto x = ask(r, "/s"); sym_assert(x.status_code == st[kind] && x.body == Bytes{'b'} && x.headers.size() == 1, "the response is unchanged"); ++codes[st[kind]]; }
        else if (kind == 8) { auto x = ask(r, "/none"); sym_assert(x.status_code == 404, "the response is unchanged"); ++codes[404]; }
        else if (kind == 9) { bool t = false; try { ask(r, "/bad"); } catch (const std::runtime_error&) { t = true; } sym_assert(t, "a failure is passed on"); ++codes[500]; }
        else if (kind == 10) { bool t = false; try { ask(r, "/odd"); } catch (int) { t = true; } sym_assert(t, "a failure is passed on"); ++codes[500]; }
        else if (kind == 11) { auto x = ask(r, "/st/a"); sym_assert(x.status_code == 200 && x.body == Bytes{'f', 'i', 'l', 'e'}, "the response is unchanged"); ++codes[200]; }
        else if (kind == 12) { auto x = ask(r, "/st/../a"); sym_assert(x.status_code == 403 || x.status_code == 404, "the response is unchanged"); ++codes[x.status_code]; }
        else if (kind == 13) { ask(r, "/_ion/status"); ++codes[200]; }
        else { auto x = ask(r, "/s", "PUT"); ++codes[x.status_code]; }
    };
    if (mode == 0) {
        bool first = sym_bool("routes first");
        if (first) world(r);
        StatusPage::add_status_page(r);
        if (!first) world(r);
        for (int i = 0; i < k; ++i) { uint8_t kind = sym_val<uint8_t>("kind"); sym_assume(kind < 15); if (k > 2) sym_assume(kind % 4 == (i + 1) % 4 || kind == 9); request((unsigned)sym_concretize(kind)); }
        page();
        page();
    } else if (mode == 1) {
        StatusPage::add_status_page(r); world(r);
        uint8_t low = sym_val<uint8_t>("status"); sym_assume(low < 100);
        next = k * 100 + (int)sym_concretize(low);
        auto x = ask(r, "/s"); sym_assert(x.status_code == next, "the response is unchanged");
        ++total; ++codes[next];
        page();
    } else if (mode == 2) {
        StatusPage::add_status_page(r);
        int64_t lo = sym_param(2), hi = sym_param(3);
        uint32_t e = sym_val<uint32_t>("seconds"), f = sym_bool("fraction") ? 999999999 : 0;
        sym_assume(e >= lo && e <= hi && f < 1'000'000'000);
        env::now_ns += (int64_t)e * 1'000'000'000 + f;
        auto s = read(ask(r, "/_ion/status"));
        uint64_t v = 0;
        sym_assert(!s.up.empty(), "the uptime is shown");
        for (auto& w : s.up) {
            char u = w.back();
            uint64_t n = number(w.substr(0, w.size() - 1));
            sym_assert(u == 'd' || u == 'h' || u == 'm' || u == 's', "the uptime has units");
            v += n * (u == 'd' ? 86400u : u == 'h' ? 3600u : u == 'm' ? 60u : 1u);
        }
        sym_assert(v == e, "the uptime shown is the number of seconds gone by");
        sym_reach("uptime");
    } else if (mode == 3) {
        // without requests, and with the page as the only one
        StatusPage::add_status_page(r); world(r);
        page(); page(); page();
    } else if (mode == 6) {
        // whatever is asked for, and however
        StatusPage::add_status_page(r); world(r);
        static const char* ms[] = {"GET", "HEAD", "POST", "OPTIONS", "CONNECT", "get", ""};
        static const char* ps[] = {"/_ion/status", "/_ion/status/", "/_ion/status?x", "/_ion", "/", "", "*", "/s", "/st/", "/favicon.ico"};
        for (int i = 0; i < 2; ++i) {
            uint8_t m = sym_val<uint8_t>("method"), p = sym_val<uint8_t>("path"); sym_assume(m < 7 && p < 10 && (i == 0 || m == 1));
            auto x = ask(r, ps[sym_concretize(p)], ms[sym_concretize(m)]);
            ++total; ++codes[x.status_code];
        }
        page();
    } else if (mode == 4) {
        StatusPage::add_status_page(r); world(r);
        uint8_t a = sym_val<uint8_t>("kind a"), b = sym_val<uint8_t>("kind b"); sym_assume(a < 8 && b < 8);
        unsigned ka = (unsigned)sym_concretize(a), kb = (unsigned)sym_concretize(b);
        for (int i = 0; i < 300; ++i) request(i % 3 ? ka : kb);
        page();
    } else {
        // over connections: two servers with the same requests, one with the page
        env::Session plain, s;
        StatusPage::add_status_page(s.r);
        world(plain.r); world(s.r);
        plain.open(); s.open();
        plain.give(env::preface()); s.give(env::preface());
        uint32_t id = 1;
        for (int i = 0; i < 3; ++i) {
            static const char* paths[] = {"/s", "/bad", "/odd", "/none", "/st/a", "/st/"};
            static const int res[] = {200, 500, 500, 404, 200, 404};
            uint8_t kind = sym_val<uint8_t>("request"); sym_assume(kind < 6);
            int j = (int)sym_concretize(kind);
            next = 200;
            plain.give(env::request(id, paths[j])); s.give(env::request(id, paths[j])); id += 2;
            ++total; ++codes[res[j]];
        }
        sym_assert(env::same(plain.w.out, s.w.out), "the responses are unchanged");
        size_t at = s.w.out.size();
        s.give(env::request(id, "/_ion/status"));
        ++total;
        env::Out o(Bytes(s.w.out.begin() + (long)at, s.w.out.end()));
        HttpResponse x{200, {}, {}};
        for (auto& f : o.f) if (f.type == 0) env::add(x.body, f.p);
        same(read(x), total, codes);
    }
    return 0;
}
