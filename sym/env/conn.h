// Environment of one ion::Http2Connection: a scripted Transport, the clock, a reader of the bytes sent.
#pragma once
#include <ionsym.h>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include "http2_conn.h"
#include "router.h"
#include "../ref/hpack_ref.h"
namespace env {
using namespace ion;
inline int64_t now_ns = 1'000'000'000'000;
inline std::vector<std::string> log_lines;
inline bool log_on = false;
struct Wire {
    std::vector<uint8_t> in;          // what the peer sends
    size_t pos = 0, limit = 0;        // read so far / arrived so far
    size_t chunk = ~0ull;             // largest single read
    size_t first = 0;                 // largest size of the first read, if not 0
    bool bounded = false;             // before anything was sent nothing can have been processed
    bool eof = false;                 // after `limit`: end of stream instead of would-block
    int readErr = -1;                 // after `limit`: this TransportError
    std::vector<uint8_t> out;         // what the transport accepted
    size_t writes = 0, reads = 0, bigReads = 0;
    int hs = 0;                       // handshake: 0 done, else 1 + TransportError
    int hsCalls = 0, shutdowns = 0;
    bool dead = false;                // a fatal write error was given
    int64_t (*onWrite)(Wire&, std::span<const uint8_t>) = nullptr;   // bytes taken; -1 - error for an error
    void give(const std::vector<uint8_t>& b) { in.insert(in.end(), b.begin(), b.end()); limit = in.size(); }
};
class T : public Transport {
public:
    explicit T(Wire& w) : w_(w) {}
    std::expected<ssize_t, TransportError> read(std::span<uint8_t> b) const override {
        ++w_.reads;
        if (w_.pos >= w_.limit) {
            if (w_.readErr >= 0) return std::unexpected((TransportError)w_.readErr);
            if (w_.eof) return std::unexpected(TransportError::ConnectionClosed);
            return std::unexpected(TransportError::WantReadOrWrite);
        }
        size_t n = w_.limit - w_.pos;
        if (n > b.size()) n = b.size();
        if (n > w_.chunk) n = w_.chunk;
        if (w_.pos == 0 && w_.first && n > w_.first) n = w_.first;
        if (w_.bounded && w_.out.empty()) sym_assert(w_.pos + n <= 65536, "never more than 64 KiB of received data is held unprocessed");
        __builtin_memcpy(b.data(), w_.in.data() + w_.pos, n);
        w_.pos += n;
        return (ssize_t)n;
    }
    std::expected<ssize_t, TransportError> write(std::span<const uint8_t> b) const override {
        ++w_.writes;
        if (w_.onWrite) {
            int64_t r = w_.onWrite(w_, b);
            if (r < 0) return std::unexpected((TransportError)(-1 - r));
            w_.out.insert(w_.out.end(), b.begin(), b.begin() + r);
            return (ssize_t)r;
        }
        w_.out.insert(w_.out.end(), b.begin(), b.end());
        return (ssize_t)b.size();
    }
    void graceful_shutdown() const override { ++w_.shutdowns; }
    std::expected<void, TransportError> handshake() const override {
        ++w_.hsCalls;
        if (w_.hs) return std::unexpected((TransportError)(w_.hs - 1));
        return {};
    }
private:
    Wire& w_;
};
inline const char* kPreface = "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n";
using Bytes = std::vector<uint8_t>;
inline Bytes preface() { return Bytes(kPreface, kPreface + 24); }
inline void add(Bytes& a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); }
inline Bytes frame(uint8_t type, uint8_t flags, uint32_t sid, const Bytes& p) {
    Bytes b{(uint8_t)(p.size() >> 16), (uint8_t)(p.size() >> 8), (uint8_t)p.size(), type, flags, (uint8_t)(sid >> 24), (uint8_t)(sid >> 16), (uint8_t)(sid >> 8), (uint8_t)sid};
    add(b, p);
    return b;
}
// header block of a request, literals without indexing
inline Bytes reqBlock(const std::string& method, const std::string& path) {
    Bytes b;
    ref::putLiteral(b, ":method", method);
    ref::putLiteral(b, ":path", path);
    return b;
}
inline Bytes request(uint32_t sid, const std::string& path, const std::string& method = "GET") { return frame(1, 5, sid, reqBlock(method, path)); }
struct Frame { uint32_t len; uint8_t type, flags; uint32_t sid; bool reserved; Bytes p; };
// frames in the bytes sent; whole is false when they end inside a frame
struct Out {
    std::vector<Frame> f;
    bool whole = true;
    explicit Out(const Bytes& b) {
        size_t i = 0;
        while (i < b.size()) {
            if (b.size() - i < 9) { whole = false; break; }
            uint32_t len = (uint32_t)sym_concretize((uint32_t)b[i] << 16 | (uint32_t)b[i + 1] << 8 | b[i + 2]);
            if (b.size() - i - 9 < len) { whole = false; break; }
            Frame g{len, b[i + 3], b[i + 4], ((uint32_t)b[i + 5] << 24 | (uint32_t)b[i + 6] << 16 | (uint32_t)b[i + 7] << 8 | b[i + 8]) & 0x7fffffff, (b[i + 5] & 0x80) != 0, Bytes(b.begin() + i + 9, b.begin() + i + 9 + len)};
            f.push_back(std::move(g));
            i += 9 + len;
        }
    }
};
struct Seen { std::string method, path; std::vector<HttpHeader> headers; };
struct Session {
    Router r;
    Wire w;
    std::vector<Seen> seen;           // requests that reached the handlers
    std::unique_ptr<Http2Connection> c;
    Http2ProcessResult last = Http2ProcessResult::WantRead;
    size_t steps = 0;
    bool over = false;
    void open() { c = std::make_unique<Http2Connection>(std::make_unique<T>(w), "10.0.0.1", r); }
    // calls process() as a server does: again while input or output can move, until it waits for the peer
    void drive(size_t limit = 200) {
        while (!over) {
            if (++steps > limit) sym_fail("the connection keeps working without consuming input or producing output");
            size_t p0 = w.pos, o0 = w.out.size();
            last = c->process();
            sym_assert(last == Http2ProcessResult::WantRead || last == Http2ProcessResult::WantWrite || last == Http2ProcessResult::DiscardConnection, "process() ends with one of its three results");
            if (last == Http2ProcessResult::DiscardConnection) { over = true; break; }
            if (last == Http2ProcessResult::WantRead && w.pos >= w.limit && !w.eof && w.readErr < 0) break;
            if (p0 == w.pos && o0 == w.out.size() && last == Http2ProcessResult::WantWrite) break;
            if (p0 == w.pos && o0 == w.out.size() && w.hs) break;
        }
    }
    void give(const Bytes& b) { w.give(b); drive(); }
    void capture(const std::string& path, const std::string& method, HttpResponse resp) {
        r.add_route(path, method, [this, resp](const HttpRequest& q) { seen.push_back({q.method, q.path, q.headers}); return resp; });
    }
};
inline bool same(const Bytes& a, const Bytes& b) {
    if (a.size() != b.size()) return false;
    unsigned d = 0;
    for (size_t i = 0; i < a.size(); ++i) d |= (unsigned)(a[i] ^ b[i]);
    return d == 0;
}
inline const std::string* header(const std::vector<ref::Header>& h, const char* n) { for (auto& x : h) if (x.first == n) return &x.second; return nullptr; }
}  // namespace env
extern "C" int64_t ion_model__ZNSt6chrono3_V212steady_clock3nowEv() { return env::now_ns; }
extern "C" void ion_env_log_line(const char* d, unsigned long n) { env::log_lines.emplace_back(d, n); }
extern "C" int ion_env_log_enabled() { return env::log_on; }
