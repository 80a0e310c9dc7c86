PROPERTY = 'C15'
NEEDS = 'a response body longer than one frame whose remainder is just above a full frame'
BREAKS = 'a last chunk of up to 128 bytes is merged into the frame before it, which can then exceed 16384 bytes'
EDITS = [('lib/http2_conn.cpp', '        size_t chunk_size = std::min(remaining_bytes, MAX_FRAME_SIZE - 128);', '''        // avoid a tiny trailing frame
        size_t chunk_size = remaining_bytes <= MAX_FRAME_SIZE + 128
                                ? remaining_bytes
                                : std::min(remaining_bytes, MAX_FRAME_SIZE - 128);''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    for (size_t n : {1u, 16256u, 16300u, 16384u, 16400u, 40000u}) {
        ion::Router r;
        r.add_route("/", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{200, Bytes(n, 'z')}; });
        auto s = std::make_shared<Script>();
        s->reads.push_back(preface() + request(1, "/"));
        ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
        c.process();
        size_t got = 0;
        for (auto& f : frames(s->out)) if (f.type == 0) { CHECK(f.p.size() <= 16384); got += f.p.size(); }
        CHECK(got == n);
    }
}
'''
