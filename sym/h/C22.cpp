//@ cases-quick: [("anywhere_a",[0,0]),("anywhere_b",[0,1]),("handler",[1,0]),("in_wait",[2,0]),("before",[3,0]),("idle",[4,0])] + [(f"signal_{i}",[5,i]) for i in range(3)] + [("pipe",[6,0]),("no_server",[7,0])]
//@ cases-thorough: [("anywhere_a",[0,0]),("anywhere_b",[0,1]),("anywhere_c",[0,2]),("handler",[1,0]),("in_wait",[2,0]),("before",[3,0]),("idle",[4,0])] + [(f"signal_{i}",[5,i]) for i in range(3)] + [("pipe",[6,0]),("no_server",[7,0])]
//@ bounds: a server with up to four clients (served, blocked on output, refused, in mid-request, flooding); the stop arriving before any of its system calls, inside any of its waits, in a handler, before it starts (for any reason), or while idle connections are reaped; SIGINT, SIGTERM and SIGPIPE delivered at any wait; every errno 1..133 or success of the probes of standard output and error, whatever errno was before
//@ outside: a stop request while the listener is created; more than one thread (the server has one)
//@ reach: stopped running
//@ sources: app/signal_handler lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader|http2_server|tcp_listener|socket_fd|server_config|stop_reason|pollers/|transports/)
// C22: a stop request ends the serving loop promptly and everything is released once.
#include "../env/server.h"
#include <csignal>
#include "signal_handler.h"
using namespace srv;
using Handler = void (*)(int);
static std::map<int, Handler> handlers;
extern "C" Handler ion_model_signal(int sig, Handler h) { Handler old = handlers.count(sig) ? handlers[sig] : SIG_DFL; handlers[sig] = h; return old; }
extern "C" int ion_model_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { if (o) memset(o, 0, sizeof *o); if (a) handlers[sig] = a->sa_handler; return 0; }
static void deliver(int sig) { if (!handlers.count(sig) || handlers[sig] == SIG_IGN) return; if (handlers[sig] == SIG_DFL) sym_fail("a signal kills the server"); errno = sym_bool("broken pipe before") ? EPIPE : 0; handlers[sig](sig); }
static bool stopped = false;
static size_t waitsAtStop = 0;
static bool inWait = false;            // the stop came inside a wait: that wait is the current one
static bool anyReason = false;
static void requestStop() { if (stopped) return; if (anyReason) { static const StopReason w[] = {StopReason::Other, StopReason::Signal, StopReason::StdOutPipeBroken, StopReason::StdErrPipeBroken}; server->stop(w[sym_choose(std::size(w), "reason")]); } else server->stop(); stopped = true; waitsAtStop = net::waits; }
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1);
    {
        Http2Server s(cleartext());
        server = &s;
        s.router().add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, {'o', 'k'}}; });
        s.router().add_route("/stop", "GET", [](const HttpRequest&) { requestStop(); return HttpResponse{200, {'o', 'k'}}; });
        net::reverse = mode < 2 ? sym_bool("reverse") : false;
        std::vector<net::Sock*> c;
        // the story: clients come and go; it starts again and again, so that there is always something to wait for
        std::vector<std::function<void()>> story;
        story.push_back([&] { c.push_back(net::client()); add(c.back()->in, hello()); add(c.back()->in, env::request(1, "/")); });
        story.push_back([&] { c.push_back(net::client()); c.back()->room = 10; add(c.back()->in, hello()); add(c.back()->in, env::request(1, "/")); c.push_back(net::client()); });
        if (mode == 0 && k == 1) story.push_back([&] { c[0]->hup = true; c.push_back(net::client()); c.back()->in = Bytes(200, 0x55); });
        if (mode == 0 && k == 2) story.push_back([&] { for (int i = 0; i < 5; ++i) { c.push_back(net::client()); c.back()->in = hello(); c.back()->eof = i & 1; } });
        if (mode == 1) story.push_back([&] { for (auto* x : c) add(x->in, env::request(3, x == c[2] ? "/" : "/stop")); });
        if (mode == 4) story.push_back([&] { env::now_ns += 6'000'000'000; });
        story.push_back([&] { add(c[0]->in, env::request(5, "/")); });
        size_t at = 0, turn = 0;
        uint16_t point = 0;
        if (mode == 0 || mode == 4) { point = sym_val<uint16_t>("stop at call"); sym_assume(point < 200); }
        if (mode == 2 || mode >= 5) { point = sym_val<uint16_t>("stop in wait"); sym_assume(point < 8); }
        size_t callNo = 0, waitNo = 0;
        bool reaping = false;
        bool early = false;          // the stop came right before a wait the loop had already decided on
        if (mode == 0 || mode == 4) net::onSyscall = [&](const char* n) {
            if (stopped) return;
            if (callNo++ == point) { requestStop(); if (std::string(n) == "epoll_wait" || std::string(n) == "poll") early = true; else if (mode == 4 && reaping) early = true; }
        };
        std::unique_ptr<SignalHandler> sh;
        int sig = k == 0 ? SIGINT : k == 1 ? SIGTERM : SIGPIPE;
        uint8_t outErr = 0, errErr = 0;
        bool mayStop = true, mustStop = true;
        if (mode == 5 || mode == 6) {
            sh = std::unique_ptr<SignalHandler>(new SignalHandler(SignalHandler::setup(s)));
            sym_assert(handlers.count(SIGINT) && handlers.count(SIGTERM) && handlers.count(SIGPIPE), "the signals are handled");
            if (mode == 5 && k == 2) { mayStop = mustStop = false; }
            if (mode == 6) {
                sig = SIGPIPE;
                outErr = sym_val<uint8_t>("stdout"); errErr = sym_val<uint8_t>("stderr");
                sym_assume(outErr <= 133 && errErr <= 133);
                mustStop = outErr == EPIPE || errErr == EPIPE;
                mayStop = outErr != 0 || errErr != 0;
            }
            net::stdWrite = [&](int fd, size_t n) -> long { uint8_t e = fd == 1 ? outErr : errErr; if (n) sym_fail("the probe of a standard stream writes to it"); if (e) { errno = e; return -1; } return 0; };
        }
        bool signalled = false;
        size_t waitsAtSignal = 0;
        net::world = [&] {
            sym_assert(net::lastTimeout >= 0 && net::lastTimeout <= 1000, "no wait is longer than a moment");
            if (stopped) { sym_assert(early && net::waits == waitsAtStop + 1, "no further wait is started after a stop request"); early = false; }
            if (signalled && mustStop) sym_fail("no further wait is started after a signal requesting a stop");
            if (turn++ % 3 == 0) { if (at < story.size()) story[at++](); }
            reaping = true;
            if (waitNo++ == point) {
                if (mode == 2) { requestStop(); if (sym_bool("interrupted")) return EINTR; }
                if (mode >= 5) { signalled = true; waitsAtSignal = net::waits; deliver(sig); return EINTR; }
            }
            if (net::waits > 60) {        // long enough: not stopped so far
                if (mode == 5 || mode == 6) sym_assert(!mustStop, "the signal requested a stop");
                sym_reach("running");
                requestStop();
            }
            return 0;
        };
        if (mode == 3) { anyReason = true; requestStop(); }
        if (mode == 7) { sh = std::unique_ptr<SignalHandler>(new SignalHandler(SignalHandler::setup(s))); sh.reset(); for (auto& [g, h] : handlers) sym_assert(h == SIG_DFL, "after its end the signals are handled as before"); auto again = SignalHandler::setup(s); requestStop(); }
        try { s.start(8080); } catch (...) { sym_fail("stopping throws"); }
        if (mode == 3 || mode == 7) sym_assert(net::waits == 0, "a stop before the start is honoured");
        if (mode == 5 || mode == 6) sym_assert(stopped || mayStop, "the loop ends only when a stop was requested");
        else sym_assert(stopped, "the loop ends only when a stop was requested");
        sym_reach("stopped");
        net::onSyscall = nullptr;
        size_t n = net::waits; sym_observe("waits", &n, sizeof n);
    }
    sym_assert(net::badClose == 0, "nothing is closed twice");
    for (auto& s : net::all) if (s->held) sym_assert(s->closes == 1 && s->fd < 0, "every socket is released exactly once when the server is gone");
    sym_reach("running");
    return 0;
}
