// A scripted peer for ion::Http2Connection.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <memory>
#include <string>
#include <vector>
#include "http2_conn.h"
#include "http2_server.h"
#include <spdlog/spdlog.h>
using Bytes = std::vector<uint8_t>;
struct Script {
    std::deque<Bytes> reads;                 // results of successive reads; an empty entry: would block
    bool eof = false;                        // after the script
    std::deque<ssize_t> writes;              // byte limits of successive writes; 0: would block
    Bytes out;
    size_t bytes_read = 0;
};
struct FakeTransport : ion::Transport {
    std::shared_ptr<Script> s;
    explicit FakeTransport(std::shared_ptr<Script> p) : s(std::move(p)) {}
    std::expected<ssize_t, ion::TransportError> read(std::span<uint8_t> b) const override {
        if (s->reads.empty()) return std::unexpected(s->eof ? ion::TransportError::ConnectionClosed : ion::TransportError::WantReadOrWrite);
        auto& f = s->reads.front();
        if (f.empty()) { s->reads.pop_front(); return std::unexpected(ion::TransportError::WantReadOrWrite); }
        size_t k = std::min(b.size(), f.size());
        std::copy(f.begin(), f.begin() + k, b.begin());
        f.erase(f.begin(), f.begin() + k);
        if (f.empty()) s->reads.pop_front();
        s->bytes_read += k;
        return (ssize_t)k;
    }
    std::expected<ssize_t, ion::TransportError> write(std::span<const uint8_t> b) const override {
        size_t k = b.size();
        if (!s->writes.empty()) { k = std::min<size_t>(k, s->writes.front()); s->writes.pop_front(); if (!k) return std::unexpected(ion::TransportError::WantReadOrWrite); }
        s->out.insert(s->out.end(), b.begin(), b.begin() + k);
        return (ssize_t)k;
    }
    void graceful_shutdown() const override {}
    std::expected<void, ion::TransportError> handshake() const override { return {}; }
};
inline Bytes operator+(Bytes a, const Bytes& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
inline Bytes text(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline Bytes preface() { return text("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"); }
inline Bytes frame(uint8_t type, uint8_t flags, uint32_t id, const Bytes& p) {
    Bytes r{(uint8_t)(p.size() >> 16), (uint8_t)(p.size() >> 8), (uint8_t)p.size(), type, flags, (uint8_t)(id >> 24), (uint8_t)(id >> 16), (uint8_t)(id >> 8), (uint8_t)id};
    return r + p;
}
inline Bytes lit(const std::string& n, const std::string& v) { return Bytes{0x00, (uint8_t)n.size()} + text(n) + Bytes{(uint8_t)v.size()} + text(v); }
inline Bytes request(uint32_t id, const std::string& path, const Bytes& extra = {}) { return frame(1, 5, id, Bytes{0x82} + lit(":path", path) + extra); }
struct F { uint8_t type, flags; uint32_t id; Bytes p; };
inline std::vector<F> frames(const Bytes& o) {
    std::vector<F> r;
    for (size_t i = 0; i + 9 <= o.size();) {
        size_t n = o[i] << 16 | o[i + 1] << 8 | o[i + 2];
        if (i + 9 + n > o.size()) break;
        r.push_back({o[i + 3], o[i + 4], (uint32_t)(o[i + 5] & 127) << 24 | (uint32_t)o[i + 6] << 16 | (uint32_t)o[i + 7] << 8 | o[i + 8], Bytes(o.begin() + i + 9, o.begin() + i + 9 + n)});
        i += 9 + n;
    }
    return r;
}
#define CHECK(c) do { if (!(c)) { std::printf("FAILED: %s (line %d)\n", #c, __LINE__); std::exit(1); } } while (0)
