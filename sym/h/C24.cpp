//@ cases-quick: [(f"read_{n}", [0,n]) for n in (1,2,3,16384)] + [(f"write_{n}", [1,n]) for n in (1,2,3,100,16384)] + [("flow",[2,0]),("whole",[3,0])]
//@ cases-thorough: [(f"read_{n}", [0,n]) for n in list(range(1,10))+[16384,65536]] + [(f"write_{n}", [1,n]) for n in list(range(1,10))+[100,16384,65536]] + [("flow",[2,0]),("whole",[3,0])]
//@ bounds: one read or write with a buffer of the listed sizes (1..16384 quick, to 65536 thorough), every result the system may give: every byte count from 1 to the size (sampled by the solver above 64), every errno 1..133, end of stream; sequences of partial writes; a whole HTTP/2 response over a socket that takes it piecemeal
//@ outside: zero-length reads and writes
//@ reach: moved blocked closed error
//@ sources: lib/(hpack/|http2_conn|http2_frame_reader|router|access_log|system_clock|static_file_handler|file_reader|transports/tcp_transport|socket_fd)
// C24: the cleartext transport reports socket results faithfully.
#include "../env/conn.h"
#include "../env/net.h"
#include "transports/tcp_transport.h"
using namespace ion;
// what an earlier call left in errno says nothing about this one
static int stale() { uint8_t e = sym_val<uint8_t>("stale"); sym_assume(e <= 133); return e; }
int harness_main() {
    int mode = (int)sym_param(0); size_t n = (size_t)sym_param(1);
    net::Sock* s = net::make(net::Conn); s->nonblock = true;
    int fd = net::install(s);
    if (mode < 2) {
        TcpTransport t{SocketFd(fd)};
        env::Bytes data(n);
        // what the system does with the call
        uint64_t kind = sym_choose(3, "kind");
        if (mode == 0) {
            size_t k = 0;
            if (kind == 0) {
                uint32_t v = sym_val<uint32_t>("count"); sym_assume(v >= 1 && v <= n && (n <= 64 || v <= 2 || v + 2 > n));
                k = (size_t)sym_concretize(v);
                s->in.assign(k, 0); sym_make(s->in.data(), k < 8 ? k : 8, "data");
            } else if (kind == 1) { uint8_t e = sym_val<uint8_t>("errno"); sym_assume(e >= 1 && e <= 133); s->rdErr = e; }
            else s->eof = true;
            errno = stale();
            auto r = t.read(data);
            sym_assert(s->reads == 1, "the socket is read once");
            if (kind == 0) {
                sym_assert(r && *r == (ssize_t)k, "exactly the number of bytes the system moved is reported");
                env::Bytes got(data.begin(), data.begin() + k);
                sym_assert(env::same(got, s->in), "the bytes arrive in the caller's buffer");
                sym_reach("moved");
            } else if (kind == 1) {
                sym_assert(!r, "a failed read is reported");
                bool again = s->rdErr == EAGAIN || s->rdErr == EWOULDBLOCK;
                if (again) { sym_assert(r.error() == TransportError::WantReadOrWrite, "would-block is reported when nothing could be read now"); sym_reach("blocked"); }
                else if (s->rdErr != EINTR) { sym_assert(r.error() != TransportError::WantReadOrWrite, "an error is not would-block"); sym_reach("error"); }
            } else { sym_assert(!r && r.error() == TransportError::ConnectionClosed, "end of stream is reported"); sym_reach("closed"); }
        } else {
            for (size_t i = 0; i < n; ++i) data[i] = (uint8_t)(i * 3);
            sym_make(data.data(), n < 8 ? n : 8, "data");
            size_t k = n;
            if (kind == 0) {
                uint32_t v = sym_val<uint32_t>("count"); sym_assume(v >= 1 && v <= n && (n <= 64 || v <= 2 || v + 2 > n || v == n / 2));
                k = (size_t)sym_concretize(v);
                s->maxWrite = k;
            } else if (kind == 1) { uint8_t e = sym_val<uint8_t>("errno"); sym_assume(e >= 1 && e <= 133); s->wrErr = e; }
            else s->room = 0;
            errno = stale();
            auto r = t.write(data);
            sym_assert(s->writes == 1, "the socket is written once");
            if (kind == 0) {
                sym_assert(r.has_value(), "a short write is progress, not a failure");
                sym_assert(*r == (ssize_t)k, "exactly the number of bytes the system moved is reported");
                sym_assert(env::same(s->out, env::Bytes(data.begin(), data.begin() + k)), "the caller's bytes are sent");
                sym_reach("moved");
            } else {
                sym_assert(!r, "a failed write is reported");
                if (kind == 2 || s->wrErr == EAGAIN || s->wrErr == EWOULDBLOCK) { sym_assert(r.error() == TransportError::WantReadOrWrite, "would-block is reported when nothing could be written now"); sym_reach("blocked"); }
                else if (s->wrErr != EINTR) { sym_assert(r.error() != TransportError::WantReadOrWrite, "an error is not would-block"); sym_reach("error"); }
            }
        }
        sym_assert(s->closes == 0, "the descriptor stays open");
        return 0;
    }
    if (mode == 2) {       // handshake, shutdown, then the descriptor goes with its owner
        {
            TcpTransport t{SocketFd(fd)};
            sym_assert(t.handshake().has_value(), "cleartext needs no handshake");
            t.graceful_shutdown();
            sym_assert(s->shutWr && s->closes == 0, "shutdown stops sending only");
        }
        sym_assert(s->closes == 1, "the descriptor is closed with the transport");
    } else {
        Router r;
        env::Bytes body(3000); for (size_t i = 0; i < body.size(); ++i) body[i] = (uint8_t)(i * 5);
        r.add_route("/", "GET", [&](const HttpRequest&) { return HttpResponse{200, body}; });
        env::Bytes in = env::preface(); env::add(in, env::request(1, "/"));
        s->in = in; s->maxWrite = 100 + sym_choose(6, "piece") * 150;
        Http2Connection c(std::make_unique<TcpTransport>(SocketFd(fd)), "x", r);
        Http2ProcessResult res = Http2ProcessResult::WantWrite;
        for (int i = 0; i < 200 && res == Http2ProcessResult::WantWrite; ++i) res = c.process();
        sym_assert(res == Http2ProcessResult::WantRead, "the response goes out piece by piece");
        env::Out o(s->out);
        env::Bytes got; for (auto& f : o.f) if (f.type == 0) env::add(got, f.p);
        sym_assert(o.whole && env::same(got, body), "the whole body arrives");
    }
    sym_reach("moved"); sym_reach("blocked"); sym_reach("closed"); sym_reach("error");
    return 0;
}
