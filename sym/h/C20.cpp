//@ cases-quick: [("seq3",[0,3]),("seq4_small",[1,4])] + [(f"full_{k}",[2,k]) for k in range(6)] + [("over_many",[3,4]),("same_batch",[4,0]),("reuse",[5,0])]
//@ cases-thorough: [("seq4",[0,4]),("seq6_small",[1,6])] + [(f"full_{k}",[2,k]) for k in range(6)] + [("over_many",[3,9]),("same_batch",[4,0]),("reuse",[5,0])]
//@ time-thorough: 800
//@ bounds: every sequence of up to 3 (quick) / 4 (thorough) events out of: a client arrives, hangs up, resets, ends its stream, sends malformed data, breaks the protocol, sends a request, any time (nanoseconds, up to 18 minutes) passes, applied to any of up to 3 clients (longer sequences over fewer kinds of event); 127, 128 and 129 to 137 clients, a place being freed in each of these ways at capacity, several events in one batch and in either order
//@ outside: more than 137 clients; failures of epoll_ctl; TLS
//@ reach: settled full freed
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader|http2_server|tcp_listener|socket_fd|server_config|stop_reason|pollers/|transports/)
// C20: places and sockets of connections are accounted for.
#include "../env/server.h"
using namespace srv;
enum Fate { Alive, Gone };
struct C { net::Sock* s; Fate expect; int64_t active; bool greeted; };
static std::vector<C> cs;
static size_t live() { size_t n = 0; for (auto& c : cs) n += c.expect == Alive; return n; }
static const size_t kMax = 128;
static void arrive(bool greet = true) {
    bool room = live() < kMax;
    cs.push_back({net::client(), room ? Alive : Gone, env::now_ns, greet});
    if (greet) add(cs.back().s->in, hello());
}
static void end(C& c, int how) {
    c.expect = Gone;
    if (how == 0) c.s->hup = true;
    else if (how == 1) { c.s->rdErr = ECONNRESET; c.s->err = true; c.s->hup = true; }
    else if (how == 2) c.s->eof = true;
    else if (how == 3) { if (!c.greeted) add(c.s->in, hello()); add(c.s->in, env::frame(4, 0, 0, {1, 2, 3})); }
    else { Bytes j(30); sym_make(j.data(), 2, "junk"); sym_assume(!(j[0] == 'P' && j[1] == 'R')); j[3] = 0xff; if (c.greeted) j[0] = 0x7f; add(c.s->in, j); }
}
static void send(C& c) {           // the client does something; a request once it has sent the preface
    if (c.greeted) add(c.s->in, env::request(1, "/")); else { add(c.s->in, hello()); c.greeted = true; }
    c.active = env::now_ns;
}
static void pass() {               // any time passes
    uint64_t d = 0; sym_make(&d, 5, "time");
    env::now_ns = (int64_t)((uint64_t)env::now_ns + d);
    for (auto& c : cs) if (c.expect == Alive && (uint64_t)env::now_ns - (uint64_t)c.active > 5'000'000'000ull) c.expect = Gone;
}
static void invariant() {          // at every wait
    size_t open = net::openCount(net::Conn);
    sym_assert(open <= kMax, "at most 128 clients are served");
    auto* e = net::epoll();
    for (auto& [fd, w] : e->watch) {
        net::Sock* s = net::at(fd);
        sym_assert(s && s == e->watchOf[fd], "only sockets that are open stay registered");
    }
    for (auto& c : cs) {
        sym_assert(c.s->closes <= 1, "a socket is closed once");
        if (c.s->fd >= 0) sym_assert(e->watch.count(c.s->fd) && (e->watch[c.s->fd].first & EPOLLIN), "a live connection is registered for readiness");
    }
}
static void atRest() {             // once the server has dealt with everything
    invariant();
    for (auto& c : cs) {
        sym_assert(c.s->held, "every client is accepted");
        if (c.expect == Alive) {
            sym_assert(c.s->closes == 0, "a healthy connection is kept");
            if (c.greeted) sym_assert(count(c.s, 4) >= 1, "a healthy connection is served");
        } else sym_assert(c.s->closes == 1, "a connection that ended, or came beyond the limit, is closed");
    }
    sym_assert(net::openCount(net::Conn) == live(), "exactly the live connections hold sockets");
    sym_assert(net::epoll()->watch.size() == live() + 1, "exactly the live connections and the listener are registered");
    sym_reach("settled");
    if (live() == kMax) sym_reach("full");
}
static void step(std::function<void()> f) { steps.push_back(std::move(f)); steps.push_back([] { atRest(); }); }
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1);
    Http2Server s(cleartext());
    s.router().add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, {'o', 'k'}}; });
    net::reverse = mode < 2 && k < 4 ? sym_bool("reverse") : mode == 4 ? sym_bool("reverse") : false;
    settleMax = 8;
    check = [] { invariant(); };
    if (mode < 2) {
        step([] { arrive(); });
        step([] { arrive(false); });
        for (int i = 0; i < k; ++i) step([mode] {
            size_t what = (size_t)sym_choose(mode ? 4 : 8, "event");
            std::vector<size_t> alive;
            for (size_t i = 0; i < cs.size(); ++i) if (cs[i].expect == Alive) alive.push_back(i);
            if (what == 0 || alive.empty()) { arrive(); return; }
            if (what == 1) { pass(); return; }
            C& c = cs[alive[sym_choose(alive.size() < 3 ? alive.size() : 3, "client")]];
            if (what == 2) send(c);
            else end(c, (int)what - 3);
        });
    } else if (mode == 2) {
        settleMax = 300;
        steps.push_back([] { for (int i = 0; i < 127; ++i) arrive(i < 3); });
        steps.push_back([] { atRest(); arrive(); });
        steps.push_back([] { atRest(); arrive(); });                       // one beyond the limit
        steps.push_back([k] {
            atRest();
            sym_assert(cs.back().s->closes == 1 && cs.back().s->out.empty(), "a client beyond the limit is closed at once");
            if (k < 5) end(cs[sym_choose(3, "who")], k); else pass();
        });
        if (k == 5) {
            step([] { send(cs[sym_choose(2, "who")]); });
            step([] { pass(); });
        }
        steps.push_back([] { atRest(); arrive(); });
        steps.push_back([] { atRest(); if (cs.back().expect == Alive) add(cs.back().s->in, env::request(1, "/")); });
        steps.push_back([] { if (cs.back().expect == Alive) { sym_assert(count(cs.back().s, 1) == 1, "a client in a freed place is served"); sym_reach("freed"); } });
    } else if (mode == 3) {
        settleMax = 300;
        steps.push_back([k] { for (size_t i = 0; i < kMax + k; ++i) arrive(i < 2); });
        steps.push_back([] { atRest(); add(cs[0].s->in, env::request(1, "/")); });
        steps.push_back([] { atRest(); sym_assert(count(cs[0].s, 1) == 1, "those already there are served"); });
    } else if (mode == 4) {            // several things in one batch
        for (int i = 0; i < 3; ++i) step([] { arrive(); });
        step([] {
            for (int i = 0; i < 3; ++i) { size_t h = (size_t)sym_choose(7, "batch"); if (h < 5) end(cs[i], (int)h); else if (h == 5) add(cs[i].s->in, env::request(1, "/")); }
            if (sym_bool("arrival")) arrive();
        });
    } else {                           // descriptors are reused
        for (int i = 0; i < 2; ++i) step([] { arrive(); });
        for (int r = 0; r < 3; ++r) step([] { end(cs[cs.size() - 1 - sym_choose(2, "which")], (int)sym_choose(3, "how")); arrive(); });
        step([] { for (auto& c : cs) if (c.expect == Alive) add(c.s->in, env::request(1, "/")); });
        step([] { for (auto& c : cs) if (c.expect == Alive) sym_assert(count(c.s, 1) == 1, "each live client is answered"); });
    }
    server = &s;
    run(s, 2000);
    size_t n = cs.size(); sym_observe("clients", &n, sizeof n);
    sym_reach("settled"); 
    return 0;
}
