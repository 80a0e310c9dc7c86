//@ cases-quick: [(f"ops_{o}_{j}", [0,2,o,j]) for o in range(16) for j in (0,1)] + [(f"long_{n}", [1,n]) for n in (1,2,100,16384)] + [(f"server_{k}", [2,k]) for k in range(8)] + [(f"retry_{k}", [3,k]) for k in range(2)]
//@ cases-thorough: [(f"ops_{o}_{j}", [0,3,o,j]) for o in range(64) for j in (0,1,2)] + [(f"long_{n}", [1,n]) for n in list(range(1,10))+[100,16384,65536]] + [(f"server_{k}", [2,k]) for k in range(8)] + [(f"retry_{k}", [3,k]) for k in range(2)]
//@ time-quick: 60
//@ bounds: sequences of two (thorough: three) operations, each one of handshake, read, write, shutdown on either of two sessions and each with every result the library can give (done with every byte count, wants input, wants output, close notification, any error code, unexpected end, system error with or without a queued entry), starting with up to two arbitrary errors left in the queue; single reads and writes with the listed buffer sizes, with and without an error left in the queue; a TLS server with a healthy client while another fails in each of these ways at any of its first operations
//@ outside: the TLS library itself (its results and its error queue follow a model of OpenSSL 3); partial-write mode unless the code asks for it; waiting for write readiness during a handshake
//@ assumptions: the library behaves as in sym/env/tls.h: only the handshake clears the error queue, and SSL_get_error reports failure while the queue holds an entry
//@ reach: done want closed failed served
//@ sources: lib/
// C25: TLS results are reported faithfully and in isolation.
#include "../env/server.h"
#include "../env/tls.h"
#include "transports/tls_transport.h"
#include <sys/stat.h>
extern "C" {
int ion_model_stat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_lstat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_access(const char*, int) { return 0; }
}
using namespace ion;
using env::Bytes; using env::add;
using tls::Kind; using tls::Op;
static unsigned long anyError() {      // an entry other than a system error or the unexpected end
    uint32_t lib = sym_val<uint8_t>("lib"), reason = sym_val<uint16_t>("reason");
    sym_assume(lib >= 3 && lib <= 64 && reason >= 1 && reason < 2048 && reason != SSL_R_UNEXPECTED_EOF_WHILE_READING);
    return tls::pack((int)lib, (int)reason);
}
static unsigned long junk() { return sym_bool("junk_sys") ? (unsigned long)ECONNRESET | ERR_SYSTEM_FLAG : anyError(); }
static Kind kind;                      // outcome of the current step
static size_t count = 0, calls = 0;
static Op last;
static env::Bytes* payload = nullptr;
static bool decide(tls::Ssl& s, Op op, void* b, size_t n, int& r) {
    if (++calls > 1) { r = tls::outcome(s, Kind::WantRead, 0, 0); if (op == Op::Shutdown) r = 0; return true; }
    last = op;
    uint8_t k = sym_val<uint8_t>("result"); sym_assume(k <= (uint8_t)Kind::SysQueued);
    kind = (Kind)sym_concretize(k);
    int fail = sym_bool("zero") ? 0 : -1;
    if (kind == Kind::Syscall) { static const int e[] = {0, EAGAIN, EINTR, EPIPE, ECONNRESET}; tls::sysErrno = e[sym_choose(5, "errno")]; }
    size_t c = 1;
    if (kind == Kind::Done && op != Op::Accept && op != Op::Shutdown) {
        c = n;
        if (op == Op::Read || (s.mode & SSL_MODE_ENABLE_PARTIAL_WRITE)) {
            uint32_t v = sym_val<uint32_t>("count"); sym_assume(v >= 1 && v <= n);
            c = v;
        }
        if (op == Op::Read) { payload->assign(n, 0x41); sym_make(payload->data(), n < 4 ? n : 4, "data"); memcpy(b, payload->data(), n); }
        else *payload = env::Bytes((uint8_t*)b, (uint8_t*)b + n);
    }
    count = c;
    r = tls::outcome(s, kind, (int)c, kind == Kind::Error ? anyError() : 0, fail);
    if (kind == Kind::Error && sym_bool("second")) tls::push(anyError());
    return true;
}
template <class R> static void judge(const R& r, bool bytes) {
    if constexpr (!std::is_void_v<typename R::value_type>) if (bytes && kind == Kind::Done) { sym_assert(r.has_value(), "a successful operation is reported as one"); sym_assert((size_t)*r == count, "exactly the bytes moved are reported"); sym_reach("done"); return; }
    switch (kind) {
        case Kind::Done: sym_assert(r.has_value(), "a successful operation is reported as one"); sym_reach("done"); return;
        case Kind::WantRead: case Kind::WantWrite: sym_assert(!r && r.error() == TransportError::WantReadOrWrite, "an operation that waits for the peer is reported as would-block"); sym_reach("want"); return;
        case Kind::Zero:
            if (last == Op::Write) sym_assert(!r && r.error() != TransportError::WantReadOrWrite, "closure is reported when the peer closed");
            else sym_assert(!r && r.error() == TransportError::ConnectionClosed, "closure is reported when the peer closed");
            sym_reach("closed"); return;
        case Kind::Error: sym_assert(!r && r.error() != TransportError::WantReadOrWrite && r.error() != TransportError::ConnectionClosed, "a failed operation is reported as failed"); sym_reach("failed"); return;
        default: sym_assert(!r && r.error() != TransportError::WantReadOrWrite, "a failed operation is reported as failed");
    }
}
static bool agree(const env::Bytes& a, const env::Bytes& b, size_t n) {     // the first n bytes are the same
    unsigned bad = 0;
    for (size_t i = 0; i < a.size() && i < b.size(); ++i) bad |= (unsigned)((i < n) & (a[i] != b[i]));
    return !bad;
}
static net::Sock* conn(int& fd) { auto* s = net::make(net::Conn); s->nonblock = true; fd = net::install(s); return s; }
static void operation(TlsTransport& t, size_t op, env::Bytes& rd, env::Bytes& wr) {
    calls = 0;
    env::Bytes moved; payload = &moved;
    if (op == 0) { auto r = t.handshake(); sym_assert(calls > 0, "the library is asked"); judge(r, false); }
    else if (op == 1) {
        auto r = t.read(rd); sym_assert(calls > 0, "the library is asked"); judge(r, true);
        if (r) sym_assert(agree(rd, moved, count), "the bytes arrive in the caller's buffer");
    } else if (op == 2) {
        auto r = t.write(wr); sym_assert(calls > 0, "the library is asked"); judge(r, true);
        if (r) { sym_assert(count <= moved.size(), "the caller's bytes are sent"); sym_assert(agree(wr, moved, count), "the caller's bytes are sent"); }
    } else t.graceful_shutdown();
}
static bool served(const env::Out& o, uint32_t id, size_t body) {
    bool h = false; size_t n = 0; bool end = false;
    for (auto& f : o.f) if (f.sid == id) { if (f.type == 1) { h = true; if (f.flags & 1) end = true; } if (f.type == 0) { n += f.len; if (f.flags & 1) end = true; } }
    return h && end && n == body;
}
int harness_main() {
    int mode = (int)sym_param(0);
    if (mode < 2) {
        TlsContext ctx("/c", "/k");
        int fd[2]; conn(fd[0]); conn(fd[1]);
        {
            TlsTransport a{SocketFd(fd[0]), ctx}, b{SocketFd(fd[1]), ctx};
            tls::script = decide;
            if (mode == 0) {
                for (int64_t i = 0; i < sym_param(3); ++i) tls::push(junk());
                env::Bytes rd(3), wr{1, 2, 3};
                int64_t ops = sym_param(2);
                for (int64_t i = 0; i < sym_param(1); ++i, ops /= 4) operation(i && sym_bool("other") ? b : a, (size_t)(ops % 4), rd, wr);
            } else {
                size_t n = (size_t)sym_param(1);
                if (sym_bool("left over")) tls::push(junk());
                env::Bytes rd(n), wr(n);
                for (size_t i = 0; i < n; ++i) wr[i] = (uint8_t)(i * 7);
                sym_make(wr.data(), n < 4 ? n : 4, "data");
                operation(a, 1 + sym_choose(2, "op"), rd, wr);
            }
        }
        return 0;
    }
    if (mode == 3) {
        // a write that could not be finished is repeated with the same bytes and then goes through
        bool moved = sym_param(1);
        Router router;
        router.add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, env::Bytes(3000, 'x')}; });
        TlsContext ctx("/c", "/k");
        int fd; auto* s = conn(fd);
        Http2Connection c(std::make_unique<TlsTransport>(SocketFd(fd), ctx), "10.0.0.1", router);
        add(s->in, Bytes{'H'}); add(s->in, srv::hello()); add(s->in, env::request(1, "/"));
        uint16_t room = sym_val<uint16_t>("room"); sym_assume(room <= 3200);
        s->room = moved ? (size_t)(sym_choose(40, "steps") * 80) : (size_t)sym_concretize(room & ~127u);
        for (int i = 0; i < 60; ++i) {
            if (i == 1) add(s->in, env::request(3, "/"));
            auto r = c.process();
            sym_assert(r != Http2ProcessResult::DiscardConnection, "a healthy connection stays");
            if (r == Http2ProcessResult::WantWrite) s->room = moved ? ~0ull : s->room + 512;
            else if (i > 1) break;
        }
        env::Out o(s->out);
        sym_assert(o.whole && served(o, 1, 3000) && served(o, 3, 3000), "a blocked connection finishes its responses");
        sym_reach("served");
        return 0;
    }
    // server: one client misbehaves, the other one is healthy
    int k = (int)sym_param(1);
    ServerConfiguration cfg; cfg.cert_path = "/c"; cfg.key_path = "/k";
    Http2Server s(cfg);
    s.router().add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, Bytes(40, 'x')}; });
    std::vector<net::Sock*> c;
    net::reverse = sym_bool("reverse");
    int badFd = -1;
    size_t badOps = 0, failAt = k == 2 ? (size_t)sym_choose(6, "at") : 0;
    tls::script = [&](tls::Ssl& x, Op op, void*, size_t, int& r) {
        if (op == Op::Shutdown) { if (k == 5) tls::push(tls::pack(ERR_LIB_SSL, SSL_R_UNINITIALIZED)); r = k == 5 ? -1 : 0; return true; }
        if (k != 2 || x.fd != badFd || badOps++ != failAt) return false;
        uint8_t q = sym_val<uint8_t>("result"); sym_assume(q >= 1 && q <= (uint8_t)Kind::SysQueued);
        r = tls::outcome(x, (Kind)sym_concretize(q), 0, tls::pack(ERR_LIB_SSL, 100), -1);
        if (!tls::queue.empty()) tls::push(tls::pack(ERR_LIB_SSL, 101));
        return true;
    };
    size_t early = sym_choose(3, "healthy");          // the healthy client: served, blocked on output, or newly come when the other fails
    auto healthy = [&] { c.push_back(net::client()); auto* h = c.back(); add(h->in, Bytes{'H'}); add(h->in, srv::hello()); add(h->in, env::request(1, "/")); if (early == 1) h->room = 30; };
    auto bad = [&] {
        c.push_back(net::client()); auto* h = c.back();
        if (k == 0) h->in = Bytes(20, 'G');                          // not TLS at all
        if (k == 1) h->eof = true, h->err = sym_bool("abrupt");      // goes away before the handshake
        if (k == 3) tls::newFailAt = tls::newCalls;                  // no memory for its session
        if (k == 4) tls::setFdFailAt = tls::setFdCalls;
        if (k == 2 || k == 5) { add(h->in, Bytes{'H'}); add(h->in, srv::hello()); add(h->in, env::request(1, "/")); if (k == 5) { Bytes g(30, 0x5a); add(h->in, g); } }
        if (k == 6) { add(h->in, Bytes{'H'}); add(h->in, srv::hello()); h->eof = true; }
        if (k == 7) { add(h->in, Bytes{'H'}); add(h->in, srv::hello()); h->rdErr = ECONNRESET; h->wrErr = EPIPE; h->err = false; }
    };
    size_t hi = 0;
    net::onSyscall = [&](const char*) {};
    if (early < 2) { srv::steps.push_back(healthy); srv::steps.push_back([&] { bad(); }); hi = 0; }
    else { srv::steps.push_back([&] { bad(); }); srv::steps.push_back(healthy); hi = 1; }
    srv::check = [&] { size_t b = 1 - hi; if (c.size() > b && c[b]->fd >= 0) badFd = c[b]->fd; };
    srv::steps.push_back([&] { c[hi]->room = ~0ull; });
    srv::steps.push_back([&] { add(c[hi]->in, env::request(3, "/")); });
    if (k == 7) srv::steps.push_back([&] { env::now_ns += 20'000'000'000; });
    srv::run(s);
    env::Out o(c[hi]->out);
    sym_assert(o.whole && served(o, 1, 40) && served(o, 3, 40), "a healthy client is served whatever happens on other connections");
    sym_assert(k == 7 || c[hi]->fd >= 0, "a healthy connection stays open");
    sym_reach("served");
    return 0;
}
