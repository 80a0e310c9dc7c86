PROPERTY = 'C12'
NEEDS = 'a frame without payload arriving at the end of what has been read so far'
BREAKS = 'a complete frame with an empty payload stays unprocessed until more bytes arrive'
EDITS = [('lib/http2_conn.cpp', 'if (read_buffer_.size() < Http2FrameHeader::wire_size) {', 'if (read_buffer_.size() <= Http2FrameHeader::wire_size) {')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    auto s = std::make_shared<Script>();
    s->reads.push_back(preface());
    s->reads.push_back({});
    s->reads.push_back(frame(4, 0, 0, {}));
    ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
    c.process(); c.process();
    auto f = frames(s->out);
    CHECK(f.size() == 2 && f[1].type == 4 && f[1].flags == 1);
}
'''
