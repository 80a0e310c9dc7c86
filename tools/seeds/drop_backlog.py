PROPERTY = 'C17'
NEEDS = 'more than a megabyte of output pending when the transport would block'
BREAKS = 'the pending output is thrown away'
EDITS = [('lib/http2_conn.cpp', '''        if (result.error() == TransportError::WantReadOrWrite) {
            // do nothing.''', '''        if (result.error() == TransportError::WantReadOrWrite &&
            write_buffer_.size() > 1048576) {
            write_buffer_.clear();
            return;
        }
        if (result.error() == TransportError::WantReadOrWrite) {
            // do nothing.''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    r.add_route("/", "GET", [&](const ion::HttpRequest&) { return ion::HttpResponse{200, Bytes(2000000, 'x')}; });
    auto s = std::make_shared<Script>();
    s->reads.push_back(preface() + request(1, "/"));
    s->writes = {100000, 100000, 100000, 0, 0};
    ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
    for (int i = 0; i < 8; ++i) c.process();
    size_t n = 0;
    for (auto& f : frames(s->out)) if (f.type == 0) n += f.p.size();
    CHECK(n == 2000000);
}
'''
