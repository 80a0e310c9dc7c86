//@ cases-quick: [("server",[0]),("again",[1]),("program",[2]),("tls",[3]),("busy",[4])]
//@ cases-thorough: [("server",[0]),("again",[1]),("program",[2]),("tls",[3]),("busy",[4])]
//@ bounds: every system call made before the first wait failing with every errno 1..133 (one failure per start), or none; cleartext and TLS servers, with the standard streams open or closed; the server object used directly, started again after a failed start, and through the program's main()
//@ outside: lack of memory; two failures in one start; failing to drop privileges or to open the access log, which are reported and do not prevent the start
//@ reach: failed served
//@ sources: app/(args|signal_handler|proc_ctrl|server_stats|status_page|test_routes) lib/
// C40: a server that cannot start says so and leaves nothing behind.
#include "../env/server.h"
#include "../env/tls.h"
#include "../env/wallclock.h"
#include "../env/app.h"
#include <sys/stat.h>
using namespace srv;
extern "C" {
int ion_model_stat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_lstat(const char* p, struct stat* s) { return ion_model_stat(p, s); }
}
static uint8_t at, err;
static size_t no = 0;
static bool fired = false, waiting = false, armed = true;
static std::string which;
static void arm() {
    at = sym_val<uint8_t>("failing call"); err = sym_val<uint8_t>("errno");
    sym_assume(at < 20 && err >= 1 && err <= 133);
    net::fault = [](const char* n) -> int {
        if (waiting || !armed) return 0;
        if (no++ != at) return 0;
        fired = true; which = n;
        return err;
    };
}
static void released(const char* when) {
    (void)when;
    for (auto& s : net::all) if (s->held) sym_assert(s->fd < 0 && s->closes == 1, "every descriptor is released, once");
    sym_assert(net::openCount(net::Listener) == 0 && net::openCount(net::Epoll) == 0 && net::openCount(net::Conn) == 0, "nothing is left open");
}
static net::Sock* p = nullptr;
static void story(bool tls) { steps.push_back([tls] { p = net::client(); if (tls) p->in = {'H'}; add(p->in, hello()); add(p->in, env::request(1, "/_tests/ok")); }); }
static void served() {
    sym_assert(p && p->out.size() > 20 && p->held, "a server that starts serves");
    sym_reach("served");
}
// 0: the loop ended because it was asked to; 1: start() refused
static int start(Http2Server& s) {
    server = &s;
    size_t w0 = net::waits;
    net::world = [w0] { waiting = true; if (net::waits - w0 > 200) sym_fail("the server is still running long after the last event"); return onWait(); };
    int r = 0;
    try { s.start(8080); }
    catch (const std::exception&) { r = 1; }
    catch (...) { sym_fail("something other than a std::exception is thrown"); }
    if (!r) sym_assert(finished, "the serving loop ends only on a stop request");
    return r;
}
int harness_main() {
    int mode = (int)sym_param(0);
    if (mode == 0 || mode == 1 || mode == 3) {
        ServerConfiguration cfg = cleartext();
        if (sym_bool("standard streams closed")) net::kFirst = 0;     // so that the lowest numbers are free
        if (mode == 3) { cfg = {}; cfg.cert_path = "/c"; cfg.key_path = "/k"; }
        {
            Http2Server s(cfg);
            s.router().add_route("/_tests/ok", "GET", [](const HttpRequest&) { return HttpResponse{200, {'o', 'k'}}; });
            arm();
            story(mode == 3);
            int r = start(s);
            if (fired && !waiting) {
                sym_assert(r == 1, "a failed start is reported");
                sym_reach("failed");
            } else sym_assert(r == 0, "a start that meets no failure succeeds");
            if (r == 1) {
                sym_assert(net::waits == 0 && !p, "nobody is served after a failed start");
                released("failed");
                if (mode == 1) { armed = false; sym_assert(start(s) == 0, "the server can be started once the obstacle is gone"); served(); }
            } else served();
        }
        released("end");
        if (mode == 3) for (auto& c : tls::ctxs) sym_assert(c->freed, "the TLS context is released");
    } else if (mode == 2) {
        arm();
        story(false);
        net::Sock* l = nullptr;
        appenv::onStart = [&] { waiting = true; l = net::listener(); };
        int rc = appenv::runMain({"ion-server", "--cleartext", "--under-test"});
        if (fired) {
            sym_assert(rc != 0, "a failed start is reported");
            sym_assert(!p && net::waits == 0, "nobody is served after a failed start");
            sym_reach("failed");
        } else { sym_assert(rc == 0, "the program ends well when it is told to"); served(); }
        released("end");
        for (auto& [sig, h] : appenv::handlers) sym_assert(h == SIG_DFL, "no handler outlives the server");
    } else {        // the port is taken by somebody else
        net::bindErr = sym_val<uint8_t>("errno"); sym_assume(net::bindErr > 0 && net::bindErr <= 133);
        int rc = appenv::runMain({"ion-server", "--cleartext", "--port", "9000"});
        sym_assert(rc != 0 && net::waits == 0, "a failed start is reported");
        released("end");
        sym_reach("failed");
    }
    return 0;
}
