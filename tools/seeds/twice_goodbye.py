PROPERTY = 'C42'
NEEDS = 'close() twice while output is pending'
BREAKS = 'a second GOAWAY is sent'
EDITS = [('lib/http2_conn.cpp', '''    if (state_ == Http2ConnectionState::Closing) {
        spdlog::error("attempting to close connection in closing state");''', '''    if (state_ == Http2ConnectionState::Closing && write_buffer_.empty()) {
        spdlog::error("attempting to close connection in closing state");''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    auto s = std::make_shared<Script>();
    s->reads.push_back(preface());
    ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
    c.process();
    s->writes = {0};
    c.close();
    c.process();
    c.close();
    for (int i = 0; i < 4 && c.process() != ion::Http2ProcessResult::DiscardConnection; ++i) {}
    int n = 0;
    for (auto& f : frames(s->out)) n += f.type == 7;
    CHECK(n == 1);
}
'''
