//@ py: ACC = [103,71,24,23,105,12,1,4,11,100,92,112,64,113,95,101,110]
//@ cases-quick: [("accept_one",[0,0]),("accept_twice",[0,1]),("accept_while",[0,2])] + [(f"client_{k}",[1,k]) for k in range(9)] + [("wait_errors",[2,0]),("wait_errors_idle",[2,1]),("fcntl",[3,0]),("epoll_add",[3,1]),("mixed2",[4,2])]
//@ cases-thorough: [("accept_one",[0,0]),("accept_twice",[0,1]),("accept_while",[0,2])] + [(f"client_{k}",[1,k]) for k in range(9)] + [("wait_errors",[2,0]),("wait_errors_idle",[2,1]),("fcntl",[3,0]),("epoll_add",[3,1]),("mixed2",[4,2]),("mixed3",[4,3])]
//@ bounds: a server with one established client; then accept failing with every transient errno (all those accept(2) lists for network and resource failures) once, twice or persistently; a second client that resets, hangs up, ends its stream, sends malformed data, fails on read or write with any errno 1..133, fails getpeername, has an unknown address family, or whose descriptor cannot be made non-blocking or registered; epoll_wait failing with any errno, with clients or without any; any 2 (quick) or 3 (thorough) of these in a row, events reported in either order; after that a new client and the first one each get a response
//@ outside: accept errors that mean the listening socket itself is gone (EBADF, EINVAL, ENOTSOCK, EFAULT); failures while the listener is set up; memory exhaustion; failing TLS library calls (C25)
//@ reach: survived
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader|http2_server|tcp_listener|socket_fd|server_config|stop_reason|pollers/|transports/)
// C21: whatever one client or the network does, the server keeps serving the others.
#include "../env/server.h"
using namespace srv;
static net::Sock *good, *bad, *fresh;
static size_t bodies(net::Sock* s) { env::Out o(s->out); size_t n = 0; for (auto& f : o.f) n += f.type == 0 && f.p.size() == 2; return n; }
static void misbehave(int k) {
    if (k == 0) { bad->rdErr = ECONNRESET; bad->err = true; bad->hup = true; }
    else if (k == 1) { bad->hup = true; bad->eof = true; }
    else if (k == 2) bad->eof = true;
    else if (k == 3) { Bytes junk(40); for (size_t i = 0; i < 40; ++i) junk[i] = (uint8_t)(i * 7); sym_make(junk.data(), 6, "junk"); add(bad->in, junk); }
    else if (k == 4) { uint8_t e = sym_val<uint8_t>("errno"); sym_assume(e >= 1 && e <= 133); bad->rdErr = e; }
    else if (k == 5) { uint8_t e = sym_val<uint8_t>("errno"); sym_assume(e >= 1 && e <= 133); bad->wrErr = e; add(bad->in, hello()); add(bad->in, env::request(1, "/")); }
    else if (k == 6) { add(bad->in, hello()); add(bad->in, env::frame(1, 5, 1, {0xff, 0xff})); }
    else if (k == 7) { bad->room = 0; add(bad->in, hello()); add(bad->in, env::request(1, "/")); }
    else { add(bad->in, hello()); add(bad->in, env::request(1, "/throw")); }
}
static int waitErr = 0;
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1);
    Http2Server s(cleartext());
    s.router().add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, {'o', 'k'}}; });
    s.router().add_route("/throw", "GET", [](const HttpRequest&) -> HttpResponse { throw 7; });
    net::reverse = sym_bool("reverse");
    if (mode == 2 && k == 1) steps.push_back([] { uint8_t e = sym_val<uint8_t>("idle errno"); sym_assume(e >= 1 && e <= 133); waitErr = e; });
    steps.push_back([] { good = net::client(); add(good->in, hello()); add(good->in, env::request(1, "/")); });
    steps.push_back([] { sym_assert(bodies(good) == 1, "the first client is answered"); });
    static const int transient[] = {ECONNABORTED, EPROTO, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPERM, EINTR, EAGAIN, ENETDOWN, ENOPROTOOPT, EHOSTDOWN, ENONET, EHOSTUNREACH, EOPNOTSUPP, ENETUNREACH, ETIMEDOUT};
    auto anErr = [] { uint8_t e = sym_val<uint8_t>("accept errno"); bool in = false; for (int t : transient) in |= e == t; sym_assume(in); return (int)e; };
    auto newBad = [] { bad = net::client(); };
    auto incident = [&](int what) {
        if (what == 0) steps.push_back([anErr] { net::acceptErrors.push_back(anErr()); });
        else if (what == 1) { steps.push_back([newBad] { newBad(); add(bad->in, hello()); }); steps.push_back([] { misbehave(0); }); }
        else if (what == 2) { steps.push_back([newBad] { newBad(); }); steps.push_back([] { misbehave(1); }); }
        else if (what == 3) steps.push_back([newBad] { newBad(); misbehave(3); });
        else if (what == 4) steps.push_back([newBad] { newBad(); misbehave(5); });
        else if (what == 5) steps.push_back([] { waitErr = EINTR; });
        else if (what == 6) steps.push_back([newBad] { net::fcntlFailAt = net::fcntlCalls; newBad(); });
        else if (what == 7) steps.push_back([newBad] { newBad(); bad->peerNameFails = true; });
        else steps.push_back([newBad] { newBad(); misbehave(7); });
    };
    if (mode == 0) {
        if (k == 2) {      // accept keeps failing while the other client is being served
            steps.push_back([anErr] { net::acceptErrAlways = anErr(); net::client(); });
            steps.push_back([] { add(good->in, env::request(3, "/")); });
            steps.push_back([] { sym_assert(bodies(good) == 2, "other clients are served while accept fails"); net::acceptErrAlways = 0; add(good->in, env::request(5, "/")); });
        } else steps.push_back([anErr, k] { for (int i = 0; i <= k; ++i) net::acceptErrors.push_back(anErr()); });
    } else if (mode == 1) {
        bool early = sym_bool("at once");
        if (early) steps.push_back([newBad, k] { newBad(); misbehave(k); });
        else { steps.push_back([newBad] { newBad(); }); steps.push_back([k] { misbehave(k); }); }
    } else if (mode == 2) {
        steps.push_back([] { uint8_t e = sym_val<uint8_t>("wait errno"); sym_assume(e >= 1 && e <= 133); waitErr = e; });
        steps.push_back([] { });
    } else if (mode == 3) {
        if (k == 0) steps.push_back([newBad] { net::fcntlFailAt = net::fcntlCalls + (int)sym_choose(2, "fcntl"); newBad(); });
        else steps.push_back([newBad] { net::ctlFailAt = net::ctlCalls; newBad(); });
        steps.push_back([newBad] { newBad(); int f = (int)sym_choose(3, "peer"); if (f == 0) bad->peerNameFails = true; else bad->family = f == 1 ? AF_INET6 : AF_UNIX; });
    } else {
        for (int i = 0; i < k; ++i) incident((int)sym_choose(9, "incident"));
    }
    // afterwards: the first client is still served, and so is a new one
    steps.push_back([] { if (!waitErr) return; });
    steps.push_back([] { size_t n = bodies(good); add(good->in, env::request(7, "/")); good->maxRead = ~0ull; fresh = net::client(); add(fresh->in, hello()); add(fresh->in, env::request(1, "/")); sym_observe("n", &n, sizeof n); });
    size_t expect = mode == 0 && k == 2 ? 4 : 2;
    check = [] { };
    auto inner = onWait;
    (void)inner;
    steps.push_back([expect] {
        sym_assert(good->closes == 0 && bodies(good) == expect, "the other connections keep being served");
        sym_assert(fresh->held && fresh->closes == 0 && bodies(fresh) == 1, "new clients keep being served");
        sym_reach("survived");
    });
    server = &s;
    settleMax = 8;
    net::onSyscall = nullptr;
    bool over = false;
    size_t limit = 400, w0 = net::waits;
    net::world = [&] {
        if (net::waits - w0 > limit) sym_fail("the server is still running long after the last event");
        int r = onWait();
        if (waitErr) { r = waitErr; waitErr = 0; }
        return r;
    };
    try { s.start(8080); over = true; }
    catch (const std::exception& e) { sym_fail("an exception ends the serving loop"); }
    catch (...) { sym_fail("an exception ends the serving loop"); }
    sym_assert(over && finished, "the serving loop ends only on a stop request");
    return 0;
}
