//@ cases-quick: [(f"{w}_ops{n}", [p,0,n]) for p, w in ((0,"epoll"),(1,"poll")) for n in (1,2,3,4)] + [(f"{w}_events{n}", [p,1,n]) for p, w in ((0,"epoll"),(1,"poll")) for n in (1,2,3)] + [(f"{w}_fail", [p,2,0]) for p, w in ((0,"epoll"),(1,"poll"))] + [(f"{w}_many{n}", [p,3,n]) for p, w in ((0,"epoll"),(1,"poll")) for n in (63,64,65,129,200)] + [("epoll_add_fails",[0,4,0]),("epoll_mod_fails",[0,4,1]),("epoll_empty",[0,5,0]),("poll_empty",[1,5,0])]
//@ cases-thorough: [(f"{w}_ops{n}", [p,0,n]) for p, w in ((0,"epoll"),(1,"poll")) for n in (1,2,3,4,5)] + [(f"{w}_events{n}", [p,1,n]) for p, w in ((0,"epoll"),(1,"poll")) for n in (1,2,3,4,5)] + [(f"{w}_fail", [p,2,0]) for p, w in ((0,"epoll"),(1,"poll"))] + [(f"{w}_many{n}", [p,3,n]) for p, w in ((0,"epoll"),(1,"poll")) for n in (63,64,65,129,200,500)] + [("epoll_add_fails",[0,4,0]),("epoll_mod_fails",[0,4,1]),("epoll_empty",[0,5,0]),("poll_empty",[1,5,0])]
//@ bounds: both pollers; every sequence of up to 4 (quick) / 5 (thorough) operations out of set with any interest, remove, close, close and reuse of the number, on two descriptors; up to 3 / 5 events at once with arbitrary 32-bit (epoll) or 16-bit (poll) event masks; every errno 1..133; 63 to 200 descriptors ready at once; none at all; a registration or a change of one that fails for lack of memory; any time-out from 0 to 10^6 ms
//@ outside: failures of epoll_create; conditions other than readable, writable, hang-up and error, which the pollers have no way of reporting
//@ reach: watched delivered failed
//@ sources: lib/pollers/
// C23: the readiness pollers report and register exactly what was asked.
#include "../env/net.h"
#include "pollers/epoll_poller.h"
#include "pollers/poll_poller.h"
using namespace ion;
static std::map<int, int> want;            // descriptor -> interest (1 read, 2 write)
static int bits(uint32_t in, uint32_t out, uint32_t ev) { return (ev & in ? 1 : 0) | (ev & out ? 2 : 0); }
static bool isEpoll;
static Poller* P;
static std::vector<std::pair<int, int>> watched() {     // what the kernel is asked to watch
    std::vector<std::pair<int, int>> r;
    if (isEpoll) {
        for (auto& [fd, w] : net::epoll()->watch) { sym_assert(!(w.first & (EPOLLET | EPOLLONESHOT)), "readiness is reported as long as it lasts"); r.push_back({fd, bits(EPOLLIN, EPOLLOUT, w.first)}); }
    } else {
        net::rawPoll = [&r](pollfd* p, size_t n) { for (size_t i = 0; i < n; ++i) r.push_back({p[i].fd, bits(POLLIN, POLLOUT, (uint16_t)p[i].events)}); return 0; };
        (void)P->poll(std::chrono::milliseconds(0));
        net::rawPoll = nullptr;
    }
    return r;
}
static void check() {
    auto got = watched();
    size_t n = 0;
    for (auto& [fd, i] : got) {
        auto it = want.find(fd);
        if (it == want.end()) sym_fail("a descriptor that is not set is watched");
        sym_assert(it->second == i, "exactly the requested interest is watched");
        ++n;
    }
    size_t open = 0;
    for (auto& [fd, i] : want) open += isEpoll ? net::at(fd) != nullptr : true;
    sym_assert(n == open, "every descriptor that is set is watched, once");
    sym_reach("watched");
}
int harness_main() {
    isEpoll = sym_param(0) == 0;
    int mode = (int)sym_param(1), n = (int)sym_param(2);
    std::unique_ptr<Poller> p;
    if (isEpoll) p = std::make_unique<EPollPoller>(); else p = std::make_unique<PollPoller>();
    P = p.get();
    auto open = [] { auto* s = net::make(net::Conn); s->nonblock = true; return net::install(s); };
    auto interest = [] { uint8_t v = sym_val<uint8_t>("interest"); sym_assume(v <= 3); return (int)v; };
    if (mode == 0 || mode == 4) {
        int fd[2] = {open(), open()};
        bool isOpen[2] = {true, true}, stale[2] = {false, false};
        if (mode == 4) {
            bool mod = n == 1;
            if (mod) { p->set(fd[0], PollEventType::Write); net::modFailAt = 0; } else net::ctlFailAt = 0;
            p->set(fd[0], PollEventType::Read);
            p->set(fd[0], PollEventType::Read); want[fd[0]] = 1;
            check();
            n = 2;
        }
        for (int i = 0; i < n; ++i) {
            int which = (int)sym_choose(i ? 2 : 1, "descriptor"), op = (int)sym_choose(4, "operation");
            int f = fd[which];
            if (op == 0) { if (!isOpen[which]) continue; int v = interest(); p->set(f, (PollEventType)v); want[f] = v; stale[which] = false; }
            else if (op == 1) { p->remove(f); want.erase(f); stale[which] = false; }
            else if (op == 2) { if (isOpen[which]) { net::doClose(f); isOpen[which] = false; if (isEpoll) want.erase(f); } }
            else {
                if (isOpen[which]) { net::doClose(f); if (isEpoll) want.erase(f); }
                auto* s = net::make(net::Conn); s->fd = f; s->held = true; net::fds[f] = s; isOpen[which] = true;
            }
            check();
        }
    } else if (mode == 1) {
        std::vector<int> fds;
        for (int i = 0; i < n; ++i) { fds.push_back(open()); p->set(fds[i], PollEventType::Read | PollEventType::Write); }
        std::vector<uint32_t> ev(n);
        size_t seen = 0;
        uint32_t ms = sym_val<uint32_t>("timeout"); sym_assume(ms <= 1000000);
        std::vector<int> order;
        for (int i = 0; i < n; ++i) order.push_back(i);
        if (sym_bool("reverse")) for (int i = 0; i < n / 2; ++i) std::swap(order[i], order[n - 1 - i]);
        net::rawEpoll = [&](epoll_event* e, int max) {
            for (int i = 0; i < n; ++i) {
                uint32_t m = sym_val<uint32_t>("events"); sym_assume(m != 0);
                ev[order[i]] = m;
                bool found = false;
                for (auto& [fd, w] : net::epoll()->watch) if (fd == fds[order[i]]) { e[i].events = m; e[i].data.u64 = w.second; found = true; }
                if (!found) sym_fail("a descriptor that is set is not watched");
            }
            ++seen;
            return n;
        };
        net::rawPoll = [&](pollfd* q, size_t k) {
            sym_assert(k == (size_t)n, "every descriptor is polled once");
            for (size_t i = 0; i < k; ++i) { uint16_t m = sym_val<uint16_t>("events"); sym_assume(!(m & POLLNVAL)); q[i].revents = (short)m; for (int j = 0; j < n; ++j) if (fds[j] == q[i].fd) ev[j] = m; }
            bool some = false; for (auto m : ev) some |= m != 0;
            sym_assume(some);
            int c = 0; for (auto m : ev) c += m != 0;
            ++seen;
            return (int)sym_concretize((uint64_t)c);
        };
        auto r = p->poll(std::chrono::milliseconds(ms));
        sym_assert(seen == 1 && (uint32_t)net::lastTimeout == ms, "one wait with the time-out asked for");
        sym_assert(r.has_value(), "events are delivered");
        std::vector<int> hits(n, 0);
        for (auto& e : *r) {
            int v = (int)e.events;
            int j = -1;
            for (int i = 0; i < n; ++i) if (fds[i] == e.fd) j = i;
            sym_assert(j >= 0, "events belong to descriptors that were set");
            if (v != 0 || ev[j] != 0) ++hits[j];
            uint32_t m = ev[j];
            if (isEpoll) sym_assert(((v & 1) != 0) == ((m & EPOLLIN) != 0) && ((v & 2) != 0) == ((m & EPOLLOUT) != 0) && ((v & 4) != 0) == ((m & EPOLLHUP) != 0) && ((v & 8) != 0) == ((m & EPOLLERR) != 0), "conditions are mapped one to one");
            else sym_assert(((v & 1) != 0) == ((m & POLLIN) != 0) && ((v & 2) != 0) == ((m & POLLOUT) != 0) && ((v & 4) != 0) == ((m & POLLHUP) != 0) && ((v & 8) != 0) == ((m & POLLERR) != 0), "conditions are mapped one to one");
            sym_assert((v & ~15) == 0, "no other condition is reported");
        }
        for (int i = 0; i < n; ++i) sym_assert(hits[i] == 1 || (!isEpoll && ev[i] == 0 && hits[i] == 0), "every event is delivered exactly once");
        sym_reach("delivered");
    } else if (mode == 5) {
        uint8_t had = sym_val<uint8_t>("had"); sym_assume(had < 3);
        if (had) { int f = open(); p->set(f, PollEventType::Read); if (had == 2) net::doClose(f); p->remove(f); }
        uint32_t ms = sym_val<uint32_t>("timeout"); sym_assume(ms <= 1000000);
        size_t seen = 0;
        net::rawEpoll = [&](epoll_event*, int) { ++seen; return 0; };
        net::rawPoll = [&](pollfd*, size_t k) { sym_assert(k == 0, "a descriptor that is not set is watched"); ++seen; return 0; };
        auto r = p->poll(std::chrono::milliseconds(ms));
        sym_assert(seen == 1 && (uint32_t)net::lastTimeout == ms, "one wait with the time-out asked for");
        sym_assert(!r && r.error() == PollError::Timeout, "a time-out is reported as such");
    } else if (mode == 2) {
        p->set(open(), PollEventType::Read);
        uint8_t e = sym_val<uint8_t>("errno"); sym_assume(e <= 133);
        net::rawEpoll = [&](epoll_event*, int) { return -(int)e; };
        net::rawPoll = [&](pollfd*, size_t) { return -(int)e; };
        auto r = p->poll(std::chrono::milliseconds(25));
        sym_assert(!r, "a wait without events is reported as such");
        if (e == 0) sym_assert(r.error() == PollError::Timeout, "a time-out is reported as such");
        else if (e == EINTR) sym_assert(r.error() == PollError::InterruptedBySignal, "an interruption is reported as such");
        else sym_assert(r.error() == PollError::Error, "a failure is reported as such");
        sym_reach("failed");
    } else {
        std::map<int, int> seen;
        for (int i = 0; i < n; ++i) { int f = open(); net::at(f)->eof = true; p->set(f, PollEventType::Read); }
        size_t skip = 0, told = 0;     // the kernel rotates its list of ready descriptors
        net::rawEpoll = [&](epoll_event* e, int max) {
            auto& w = net::epoll()->watch;
            int k = 0;
            std::vector<epoll_event> all;
            for (auto& [fd, x] : w) { epoll_event y{}; y.events = EPOLLIN; y.data.u64 = x.second; all.push_back(y); }
            for (; k < max && k < (int)all.size(); ++k) e[k] = all[(skip + k) % all.size()];
            skip += k; told = (size_t)k;
            return k;
        };
        for (int round = 0; round < n / 64 + 1; ++round) {
            auto r = p->poll(std::chrono::milliseconds(25));
            sym_assert(r && !r->empty(), "events are delivered");
            if (!isEpoll) told = (size_t)n;
            sym_assert(r->size() == told, "every event is delivered exactly once");
            std::map<int, int> now;
            for (auto& e : *r) { ++now[e.fd]; ++seen[e.fd]; sym_assert(e.events == PollEventType::Read, "conditions are mapped one to one"); }
            for (auto& [fd, c] : now) sym_assert(c == 1, "every event is delivered exactly once");
        }
        sym_assert(seen.size() == (size_t)n, "no descriptor is starved");
    }
    p.reset();
    if (isEpoll) { sym_assert(net::openCount(net::Epoll) == 0, "the poller releases its descriptor"); }
    sym_reach("watched"); sym_reach("delivered"); sym_reach("failed");
    return 0;
}
