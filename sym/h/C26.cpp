//@ py: ops = lambda t, d: [(f"{['socket','tcp','tls'][t]}_{a}_{b}", [0,t,d,a,b]) for a in range(5) for b in (0,1)]
//@ cases-quick: sum([ops(t, 3 if t == 0 else 3) for t in range(3)], []) + [(f"ctor_{k}", [1,k]) for k in range(3)] + [(f"server_{k}", [2,k]) for k in range(6)]
//@ cases-thorough: sum([ops(t, 4) for t in range(3)], []) + [(f"ctor_{k}", [1,k]) for k in range(3)] + [(f"server_{k}", [2,k]) for k in range(6)]
//@ bounds: three owners of sockets, of cleartext transports or of TLS transports, two of them holding a descriptor (descriptor numbers are arbitrary, symbolic, and may be given out again once closed), closing them reporting success or any errno, and every sequence of three (thorough: four) operations among construction, move construction, move assignment (also to itself), explicit close and destruction on any of them; TLS session construction failing at each step; TLS servers with clients that are served, fail their handshake, are refused, go away or are still there at the stop
//@ outside: use of a moved-from transport other than destroying it or assigning to it
//@ assumptions: the TLS library behaves as in sym/env/tls.h
//@ reach: moved closed released
//@ sources: lib/
// C26: descriptors and TLS sessions are released exactly once.
#include "../env/server.h"
#include "../env/tls.h"
#include "transports/tcp_transport.h"
#include "transports/tls_transport.h"
#include <optional>
#include <sys/stat.h>
extern "C" {
int ion_model_stat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_lstat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_access(const char*, int) { return 0; }
}
using namespace ion;
using env::Bytes; using env::add;
static int fresh() { auto* s = net::make(net::Conn); s->nonblock = true; return net::install(s); }
// a descriptor with an arbitrary number that is free at that moment
struct D { int num = -1; bool open = true; int closes = 0; };
static std::vector<std::unique_ptr<D>> ds;
static D* openD() {
    int32_t n = sym_val<int32_t>("fd");
    bool ok = n >= 0;
    for (auto& d : ds) if (d->open) ok = ok & (d->num != n);
    sym_assume(ok);
    ds.push_back(std::make_unique<D>());
    ds.back()->num = n;
    return ds.back().get();
}
static int closeErr = -1;             // closing reports this error (the number is free all the same)
static int closeD(int fd) {
    for (auto& d : ds) if (d->open && d->num == fd) { d->open = false; ++d->closes; if (ds.size() == 1) return 0; if (closeErr < 0) { uint8_t e = sym_val<uint8_t>("close errno"); sym_assume(e <= 133); closeErr = e; } if (closeErr) { errno = closeErr; return -1; } return 0; }
    sym_fail("a descriptor that is not open is closed");
}
static size_t pick(size_t n, const char* name) { uint8_t v = sym_val<uint8_t>(name); sym_assume(v < n); for (size_t i = 0; i + 1 < n; ++i) if (v == i) return i; return n - 1; }
static TlsContext* ctx = nullptr;
template <class T> std::unique_ptr<T> build(int fd);
template <> std::unique_ptr<SocketFd> build<SocketFd>(int fd) { return std::make_unique<SocketFd>(fd); }
template <> std::unique_ptr<TcpTransport> build<TcpTransport>(int fd) { return std::make_unique<TcpTransport>(SocketFd(fd)); }
template <> std::unique_ptr<TlsTransport> build<TlsTransport>(int fd) { return std::make_unique<TlsTransport>(SocketFd(fd), *ctx); }
template <class T> static void sequence(int depth, int first, int second) {
    constexpr bool plain = std::is_same_v<T, SocketFd>, secure = std::is_same_v<T, TlsTransport>;
    net::closeHook = closeD;
    std::unique_ptr<T> slot[3];
    D* own[3] = {};                     // what each owner holds
    tls::Ssl* session[3] = {};
    std::vector<D*> gone;               // what was released
    std::vector<tls::Ssl*> freed;
    auto create = [&](int i) {
        size_t before = tls::ssls.size();
        own[i] = openD();
        slot[i] = build<T>(own[i]->num);
        if (secure) {
            sym_assert(tls::ssls.size() == before + 1, "a TLS transport has one session");
            session[i] = tls::ssls.back().get();
            sym_assert(session[i]->fd == own[i]->num, "the session uses the transport's descriptor");
        }
    };
    auto release = [&](int i) { if (own[i]) gone.push_back(own[i]); if (session[i]) freed.push_back(session[i]); own[i] = nullptr; session[i] = nullptr; };
    auto give = [&](int to, int from) { own[to] = own[from]; session[to] = session[from]; own[from] = nullptr; session[from] = nullptr; };
    auto verify = [&] {
        for (int i = 0; i < 3; ++i) if (own[i]) {
            sym_assert(own[i]->closes == 0 && own[i]->open, "a descriptor stays open while it has an owner");
            if (session[i]) sym_assert(session[i]->frees == 0, "a TLS session lives while it has an owner");
            if constexpr (plain) sym_assert((int)*slot[i] == own[i]->num, "the owner knows its descriptor");
        }
        if constexpr (plain) for (int i = 0; i < 3; ++i) if (slot[i] && !own[i]) sym_assert((int)*slot[i] < 0, "an owner without a descriptor has none");
        for (auto* s : gone) sym_assert(s->closes == 1, "a released descriptor is closed exactly once");
        for (auto* s : freed) sym_assert(s->frees == 1, "a released TLS session is freed exactly once");
    };
    create(0); create(1);
    verify();
    for (int step = 0; step < depth; ++step) {
        uint64_t op = step == 0 ? (uint64_t)first : pick(5, "op");
        int i = step == 0 ? second : (int)pick(3, "i");
        if (op == 0) { release(i); slot[i].reset(); create(i); }
        else if (op == 1) {                     // a new owner takes over
            int j = (i + 1 + (int)pick(2, "j")) % 3;
            if (!slot[j]) continue;
            release(i); slot[i].reset();
            slot[i] = std::make_unique<T>(std::move(*slot[j]));
            give(i, j);
            sym_reach("moved");
        } else if (op == 2) {
            int j = (int)pick(3, "j");
            if (!slot[i] || !slot[j]) continue;
            if (i != j) { release(i); }
            *slot[i] = std::move(*slot[j]);
            if (i != j) give(i, j);
            sym_reach("moved");
        } else if (op == 3) {
            if (!slot[i]) continue;
            if constexpr (plain) { release(i); slot[i]->close(); sym_reach("closed"); }
            else if (own[i]) slot[i]->graceful_shutdown();   // tells the peer, releases nothing
        } else { release(i); slot[i].reset(); }
        verify();
    }
    for (int i = 2; i >= 0; --i) { release(i); slot[i].reset(); verify(); }
    for (auto& d : ds) sym_assert(!d->open && d->closes == 1, "everything is released in the end");
    sym_assert(tls::live() == 0, "everything is released in the end");
    net::closeHook = nullptr;
    sym_reach("released");
}
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1);
    if (mode == 0) {
        int d = (int)sym_param(2), a = (int)sym_param(3), b = (int)sym_param(4);
        if (k == 0) sequence<SocketFd>(d, a, b);
        else if (k == 1) sequence<TcpTransport>(d, a, b);
        else { TlsContext c("/c", "/k"); ctx = &c; sequence<TlsTransport>(d, a, b); }
        return 0;
    }
    if (mode == 1) {
        TlsContext c("/c", "/k");
        if (k == 0) tls::newFailAt = (int)sym_choose(3, "at");
        if (k == 1) tls::setFdFailAt = (int)sym_choose(3, "at");
        std::vector<net::Sock*> socks;
        {
            std::vector<TlsTransport> v;
            for (int i = 0; i < 3; ++i) {
                int fd = fresh(); socks.push_back(net::at(fd));
                size_t before = tls::live();
                try { v.emplace_back(SocketFd(fd), c); }
                catch (const std::exception&) { sym_assert(socks.back()->closes == 1 && tls::live() == before, "a transport that cannot be built keeps nothing"); }
            }
            if (sym_bool("erase")) { v.erase(v.begin()); sym_assert(socks[0]->closes == 1, "an erased transport closes its own descriptor"); }
        }
        for (auto* s : socks) sym_assert(s->closes == 1, "each descriptor is closed exactly once");
        sym_assert(tls::live() == 0, "each TLS session is freed exactly once");
        for (auto& x : tls::ssls) sym_assert(x->frees == 1, "each TLS session is freed exactly once");
        return 0;
    }
    {
        ServerConfiguration cfg; cfg.cert_path = "/c"; cfg.key_path = "/k";
        Http2Server s(cfg);
        s.router().add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, Bytes(40, 'x')}; });
        std::vector<net::Sock*> c;
        net::reverse = sym_bool("reverse");
        if (k == 1) tls::newFailAt = (int)sym_choose(3, "at");
        if (k == 2) tls::setFdFailAt = (int)sym_choose(3, "at");
        auto come = [&](const Bytes& b) { c.push_back(net::client()); c.back()->in = b; };
        Bytes good{'H'}; add(good, srv::hello()); add(good, env::request(1, "/"));
        srv::steps.push_back([&, good] { come(good); come(Bytes(k == 3 ? 9 : 0, 'G')); });
        srv::steps.push_back([&, good] { come(good); if (k == 4) { c[0]->hup = true; come(good); } if (k == 5) c[0]->eof = true; });
        srv::steps.push_back([&] { c[1]->eof = true; if (k != 4) c[0]->hup = k == 0; });
        if (k == 3) srv::steps.push_back([&] { env::now_ns += 20'000'000'000; });
        srv::steps.push_back([&, good] { come(good); });
        srv::run(s);
        for (auto* x : c) if (x->held) sym_assert(x->closes <= 1, "each descriptor is closed at most once");
        size_t open = net::openCount(net::Conn);
        sym_assert(tls::live() == open, "each open TLS connection has one session and no session outlives its connection");
    }
    sym_assert(net::openCount(net::Conn) + net::openCount(net::Listener) + net::openCount(net::Epoll) == 0, "every descriptor is released when the server is gone");
    for (auto& s : net::all) if (s->held) sym_assert(s->closes == 1, "each descriptor is closed exactly once");
    for (auto& x : tls::ssls) sym_assert(x->frees == 1, "each TLS session is freed exactly once");
    sym_assert(net::badClose == 0, "only open descriptors are closed");
    sym_reach("released");
    return 0;
}
