PROPERTY = 'C16'
NEEDS = 'an undecodable header block in a HEADERS frame without END_HEADERS'
BREAKS = 'the connection goes on after it'
EDITS = [('lib/http2_conn.cpp', '''            if (!hdrs) {
                update_state(Http2ConnectionState::ProtocolError);
                return;''', '''            if (!hdrs) {
                if (frame.is_end_headers()) {
                    update_state(Http2ConnectionState::ProtocolError);
                }
                return;''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    for (int flags : {5, 1}) {
        ion::Router r;
        int served = 0;
        r.add_route("/", "GET", [&](const ion::HttpRequest&) { ++served; return ion::HttpResponse{200}; });
        auto s = std::make_shared<Script>();
        s->reads.push_back(preface() + frame(1, flags, 1, {0x80}) + request(3, "/"));
        ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
        CHECK(c.process() == ion::Http2ProcessResult::DiscardConnection);
        CHECK(served == 0);
    }
}
'''
