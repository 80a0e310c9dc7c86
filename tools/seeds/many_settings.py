PROPERTY = 'C09'
NEEDS = 'a SETTINGS payload of more than 256 entries'
BREAKS = 'it is read as an empty list'
EDITS = [('lib/http2_frame_reader.cpp', 'settings.reserve(num_settings);', '''settings.reserve(num_settings);
    if (num_settings > 256) {
        return settings;
    }''')]
SOURCES = 'lib/http2_frame_reader.cpp'
DEMO = r'''#include "conn_kit.h"
#include "http2_frame_reader.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    for (size_t n : {1, 256, 257, 2000}) {
        Bytes p(6 * n);
        Bytes f = frame(4, 0, 0, p);
        auto h = ion::Http2FrameHeader::parse(std::span<const uint8_t, 9>(f.data(), 9));
        ion::Http2FrameReader r(h, p);
        auto s = r.read_settings();
        CHECK(s && s->size() == n);
    }
}
'''
