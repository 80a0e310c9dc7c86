PROPERTY = 'C16'
NEEDS = 'an oversized frame announced by its header whose payload has not arrived yet'
BREAKS = 'the frame is refused only once its whole payload has been received'
EDITS = [('lib/http2_conn.cpp', '''    if (header.length > MAX_FRAME_SIZE) {
        spdlog::warn("frame too big (sz: {}, max: {})", header.length, MAX_FRAME_SIZE);
        update_state(Http2ConnectionState::ProtocolError);
        return true;
    }

    const size_t total_frame_size = Http2FrameHeader::wire_size + header.length;
    if (read_buffer_.size() < total_frame_size) {
        spdlog::trace("not enough data for whole frame ({} < {})", read_buffer_.size(),
                      total_frame_size);
        return false;
    }
''', '''    const size_t total_frame_size = Http2FrameHeader::wire_size + header.length;
    if (read_buffer_.size() < total_frame_size) {
        spdlog::trace("not enough data for whole frame ({} < {})", read_buffer_.size(),
                      total_frame_size);
        return false;
    }

    if (header.length > MAX_FRAME_SIZE) {
        spdlog::warn("frame too big (sz: {}, max: {})", header.length, MAX_FRAME_SIZE);
        update_state(Http2ConnectionState::ProtocolError);
        return true;
    }
''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    auto s = std::make_shared<Script>();
    s->reads.push_back(preface() + Bytes{0x00, 0x40, 0x01, 0, 0, 0, 0, 0, 1});
    ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
    CHECK(c.process() == ion::Http2ProcessResult::DiscardConnection);
}
'''
