// A running ion::Http2Server over the kernel model: actions of the outside world between its waits.
#pragma once
#include "conn.h"
#include "net.h"
#include "http2_server.h"
namespace srv {
using namespace ion;
using env::Bytes; using env::add;
inline std::vector<std::function<void()>> steps;   // one per stage of the story; the server settles after each
inline std::function<void()> check;                // runs whenever the server waits
inline size_t next = 0, settle = 0, settleMax = 6;
inline Http2Server* server = nullptr;
inline bool finished = false;
inline ServerConfiguration cleartext() { ServerConfiguration c; c.cleartext = true; return c; }
inline bool quiet() {              // nothing the server could react to
    auto* e = net::epoll();
    if (!e) return false;
    epoll_event ev[8];
    return net::doWait(ev, 8, e) == 0;
}
inline int onWait() {
    if (check) check();
    if (settle < settleMax && !(settle > 0 && quiet())) { ++settle; return 0; }
    settle = 0;
    if (next < steps.size()) { steps[next++](); return 0; }
    finished = true;
    server->stop();
    return 0;
}
inline Bytes hello() { return env::preface(); }
inline size_t count(net::Sock* s, uint8_t type) { env::Out o(s->out); size_t n = 0; for (auto& f : o.f) n += f.type == type; return n; }
// 0: the server stopped because it was asked to
inline void run(Http2Server& s, size_t limit = 400) {
    server = &s;
    net::world = onWait;
    size_t w0 = net::waits;
    auto inner = net::world;
    net::world = [inner, w0, limit] { if (net::waits - w0 > limit) sym_fail("the server is still running long after the last event"); return inner(); };
    try { s.start(8080); }
    catch (const std::exception& e) { sym_note(e.what(), 0); sym_fail("an exception ends the serving loop"); }
    catch (...) { sym_fail("an exception ends the serving loop"); }
    sym_assert(finished, "the serving loop ends only on a stop request");
}
}  // namespace srv
