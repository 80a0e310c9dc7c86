//@ cases-quick: [(f"serve_{m}", [0,m]) for m in range(0,32)] + [(f"port_{n}", [1,n]) for n in range(0,7)] + [(f"level_{n}", [2,n]) for n in range(8)] + [(f"bad_{n}", [3,n]) for n in range(12)] + [(f"page_{n}", [4,n]) for n in range(5)] + [("privs",[5,0])]
//@ cases-thorough: [(f"serve_{m}", [0,m]) for m in range(0,32)] + [(f"port_{n}", [1,n]) for n in range(0,8)] + [(f"level_{n}", [2,n]) for n in range(8)] + [(f"bad_{n}", [3,n]) for n in range(12)] + [(f"page_{n}", [4,n]) for n in range(5)] + [("privs",[5,0])]
//@ bounds: every combination of static mapping, access log, status page, test routes and custom 404 page, through main() and a client with seven requests; every port text of up to six (thorough: seven) digits; every log level in every mixture of cases; twelve wrong command lines; custom pages with three arbitrary bytes, missing, empty, unreadable or failing to be read; six methods on an unknown path
//@ outside: telemetry and the text of the log; TLS (C32); combinations of command line syntax beyond --x v, --x=v and -x v
//@ assumptions: CLI11 behaves as sym/include/CLI/App.hpp, which agrees with the installed CLI11 on the command lines in tools/clidiff; text streams as sym/include/text_streams.h
//@ reach: served refused plain custom
//@ defs: -include text_streams.h
//@ sources: app/(args|signal_handler|proc_ctrl|server_stats|status_page|test_routes) lib/
// C35: the program does what its command line asks and nothing else.
#include "../env/server.h"
#include "../env/fs.h"
#include "../env/tls.h"
#include "../env/wallclock.h"
#include "../env/random.h"
#include "../env/app.h"
using namespace srv;
struct Got { int status = 0; Bytes body; std::string type; bool done = false; };
static std::map<uint32_t, Got> replies(net::Sock* s) {
    std::map<uint32_t, Got> m;
    env::Out o(s->out);
    sym_assert(o.whole, "whole frames are sent");
    ::ref::Table t(4096);
    for (auto& f : o.f) {
        uint32_t id = (uint32_t)sym_concretize(f.sid);
        if (f.type == 1) {
            std::vector<::ref::Header> h;
            sym_assert(::ref::blockDecode(f.p.data(), f.p.size(), t, h), "the response's headers decode");
            auto* st = env::header(h, ":status");
            sym_assert(st && st->size() == 3, "a response has a status");
            m[id].status = ((*st)[0] - '0') * 100 + ((*st)[1] - '0') * 10 + ((*st)[2] - '0');
            if (auto* ct = env::header(h, "content-type")) m[id].type = *ct;
        }
        if (f.type == 0) env::add(m[id].body, f.p);
        if (f.type < 2 && (f.flags & 1)) m[id].done = true;
    }
    for (auto& [id, g] : m) sym_assert(g.done, "the response is complete");
    return m;
}
static Bytes bytes(const std::string& s) { return Bytes(s.begin(), s.end()); }
static net::Sock* peer = nullptr;
static fsm::Node* page404 = nullptr;
static void files() {
    fsm::start(); fsm::withNet();
    auto* d = fsm::dir(fsm::root, "www"); fsm::file(d, "a.txt", std::string("file a"));
    auto* e = fsm::dir(fsm::root, "etc"); page404 = fsm::file(e, "404.html", std::string("gone"));
    fsm::file(e, "secret", std::string("secret"));
}
static void talk(const std::vector<std::pair<std::string, std::string>>& reqs) {
    steps.push_back([reqs] {
        peer = net::client();
        add(peer->in, hello());
        uint32_t id = 1;
        for (auto& [m, p] : reqs) { add(peer->in, env::request(id, p, m)); id += 2; }
    });
}
int harness_main() {
    int mode = (int)sym_param(0), n = (int)sym_param(1);
    files();
    auto& lv = env::log_lines;
    std::vector<std::string> a{"ion-server", "--cleartext"};
    bool listened = false;
    appenv::onStart = [&] { listened = true; };
    if (mode == 0) {
        bool st = n & 1, acc = n & 2, stat = n & 4, test = n & 8, custom = n & 16;
        bool port = sym_bool("port given");
        if (port) { a.push_back("-p"); a.push_back("9001"); }
        if (custom) { a.push_back("--custom-404-file-path"); a.push_back("/etc/404.html"); }
        if (st) { a.push_back("--static"); a.push_back("/st"); a.push_back("/www"); }
        if (stat) a.push_back("--status-page");
        if (acc) { a.push_back("--access-log"); a.push_back("/var/log/ion"); }
        if (test) a.push_back("--under-test");
        talk({{"GET", "/_tests/ok"}, {"GET", "/_tests/no_content"}, {"GET", "/_ion/status"}, {"GET", "/st/a.txt"}, {"GET", "/st/../etc/secret"}, {"GET", "/nope"}, {"HEAD", "/nope"}, {"GET", "/st/nope"}, {"GET", "/st/%2e%2e/etc/404.html"}});
        int rc = appenv::runMain(a);
        sym_assert(rc == 0, "the program ends well when it is told to");
        sym_assert(listened && net::ports.size() == 1 && net::ports[0] == (port ? 9001 : 8443), "the server listens on the port given, on 8443 when none is given");
        sym_assert(appenv::noNewPrivs, "the process gives up gaining privileges");
        auto r = replies(peer);
        sym_assert(r.size() == 9, "each request is answered");
        auto none = [&](uint32_t id, bool head = false) {
            auto& g = r[id];
            sym_assert(g.status == 404, "what was not asked for is not there");
            sym_assert(env::same(g.body, custom && !head ? bytes("gone") : Bytes{}), custom ? "a missing page is answered with the custom page" : "a missing page has no body");
            if (custom) sym_assert(g.type.starts_with("text/html"), "the custom page has its type");
            sym_reach(custom ? "custom" : "plain");
        };
        if (test) { sym_assert(r[1].status == 200 && r[3].status == 204 && r[1].body.empty() && r[3].body.empty(), "the test routes are there"); } else { none(1); none(3); }
        if (stat) sym_assert(r[5].status == 200 && r[5].body.size() > 100, "the status page is there"); else none(5);
        if (st) { sym_assert(r[7].status == 200 && env::same(r[7].body, bytes("file a")), "the static directory is served"); sym_assert(r[9].status == 403 && r[9].body.empty(), "other answers stay as they are"); } else { none(7); none(9); }
        none(11); none(13, true); none(15);
        if (st) { sym_assert(r[17].status == 403 || r[17].status == 404, "nothing outside the directory is served"); } else none(17);
        sym_assert(spdlog::logFile() == (acc ? "/var/log/ion" : ""), "the access log goes where it was asked to");
        sym_assert(lv.size() == (acc ? 9u : 0u), "requests are logged exactly when it was asked for");
        sym_reach("served");
    } else if (mode == 1) {
        std::string t((size_t)n, '0');
        sym_make(t.data(), t.size(), "port");
        uint64_t v = 0;
        for (size_t i = 0; i < t.size(); ++i) { sym_assume((t[i] >= '0') & (t[i] <= '9')); v = v * 10 + (uint64_t)(t[i] - '0'); }
        if (n) sym_assume(t[0] != '0' || n == 1);
        uint8_t how = sym_val<uint8_t>("syntax"); sym_assume(how < 3);
        if (how == 0) { a.push_back("--port"); a.push_back(t); } else if (how == 1) { a.push_back("-p"); a.push_back(t); } else { if (!n) return 0; a.push_back("--port=" + t); }
        int rc = appenv::runMain(a);
        bool ok = n > 0 && v >= 1 && v <= 65535;
        sym_assert((rc == 0) == ok, "a port is 1 to 65535");
        if (ok) { sym_assert(net::ports.size() == 1 && (uint64_t)net::ports[0] == v, "the server listens on the port given"); sym_reach("served"); }
        else { sym_assert(net::ports.empty() && !listened, "nothing listens on a wrong port"); sym_reach("refused"); }
    } else if (mode == 2) {
        static const char* lvs[] = {"trace", "debug", "info", "warn", "error", "critical", "off", "fatal"};
        std::string l = lvs[n];
        uint8_t up = sym_val<uint8_t>("capitals"); sym_assume(up < (1u << l.size()));
        uint8_t m = (uint8_t)sym_concretize(up);
        for (size_t i = 0; i < l.size(); ++i) if (m >> i & 1) l[i] = (char)(l[i] - 32);
        a.push_back("--log-level"); a.push_back(l);
        int rc = appenv::runMain(a);
        sym_assert((rc == 0) == (n < 7) && listened == (n < 7), "the server starts with any level there is and with no other");
        if (n < 7) { static const spdlog::level::level_enum e[] = {spdlog::level::trace, spdlog::level::debug, spdlog::level::info, spdlog::level::warn, spdlog::level::err, spdlog::level::critical, spdlog::level::off}; sym_assert(spdlog::level_set() == e[n], "the level is the one given"); }
        sym_reach(n < 7 ? "served" : "refused");
    } else if (mode == 3) {
        static const std::vector<std::vector<std::string>> bad{{"--nope"}, {"x"}, {"--static", "/a"}, {"--static", "/a", "b", "c"}, {"--port"}, {"--port", "x"}, {"-p", "-1"}, {"--port", "80", "--port", "81"}, {"--tls-cert-path"}, {"--log-level", "loud"}, {"--custom-404-file-path"}, {"-p", "80x"}};
        for (auto& s : bad[(size_t)n]) a.push_back(s);
        int rc = appenv::runMain(a);
        sym_assert(rc != 0 && !listened && net::ports.empty(), "a wrong command line ends the program before it listens");
        sym_reach("refused");
    } else if (mode == 4) {
        // 0: arbitrary contents; 1: missing; 2: empty; 3: unreadable; 4: reading fails
        a.push_back("--custom-404-file-path"); a.push_back(n == 1 ? "/etc/none" : "/etc/404.html"); a.push_back("--under-test");
        if (n == 0) { page404->data.assign(3, 0); sym_make(page404->data.data(), 3, "page"); }
        if (n == 2) page404->data.clear();
        if (n == 3) page404->readable = false;
        if (n == 4) { page404->readErr = EIO; page404->readErrAt = sym_bool("at once") ? 0 : 2; }
        std::string m;
        static const char* kMethods[] = {"GET", "HEAD", "POST", "HEAd", "GE", ""};
        uint8_t mi = sym_val<uint8_t>("method"); sym_assume(mi < 6);
        m = kMethods[sym_concretize(mi)];
        talk({{m, "/nope"}, {"GET", "/_tests/ok"}});
        int rc = appenv::runMain(a);
        sym_assert(rc == 0, "the program ends well when it is told to");
        auto r = replies(peer);
        if (m.empty()) { sym_assert(r[1].status == 404 || r[1].status == 400, "an empty method finds nothing"); return 0; }
        sym_assert(r[1].status == 404, "the custom page has status 404");
        Bytes want = n == 1 || n >= 3 || m == "HEAD" ? Bytes{} : page404->data;
        sym_assert(env::same(r[1].body, want), "a missing page is answered with the custom page's bytes, a HEAD request with none");
        sym_assert(r[3].status == 200 && r[3].body.empty(), "other answers stay as they are");
        sym_reach("custom");
    } else {
        // privileges are given up before anybody is served
        bool atStart = false;
        appenv::onStart = [&] { atStart = appenv::noNewPrivs; };
        a.push_back("--under-test");
        talk({{"GET", "/_tests/no_new_privs"}});
        sym_assert(appenv::runMain(a) == 0, "the program ends well when it is told to");
        sym_assert(atStart, "the process gives up gaining privileges before it serves anybody");
        sym_assert(replies(peer)[1].status == 200, "the test route tells so");
    }
    return 0;
}
