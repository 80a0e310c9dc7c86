PROPERTY = 'C17'
NEEDS = 'a transport that accepts only part of the queued output'
BREAKS = 'after a partial write the bytes that were not accepted are dropped once fewer than a frame header is left'
EDITS = [('lib/http2_conn.cpp', 'write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);', '''write_buffer_.erase(write_buffer_.begin(), write_buffer_.begin() + *result);
    if (write_buffer_.size() < Http2FrameHeader::wire_size) {
        write_buffer_.clear();
    }''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/", "GET", [](const ion::HttpRequest&) { return ion::HttpResponse{200, Bytes(50, 'z')}; });
    auto run = [&](std::deque<ssize_t> w) {
        auto s = std::make_shared<Script>();
        s->writes = w;
        s->reads.push_back(preface() + request(1, "/"));
        ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
        for (int i = 0; i < 50; ++i) if (c.process() != ion::Http2ProcessResult::WantWrite) break;
        return s->out;
    };
    Bytes whole = run({});
    for (ssize_t cut = 1; cut < 27; ++cut) CHECK(run({cut, 0}) == whole);
}
'''
