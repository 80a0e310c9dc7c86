PROPERTY = 'C19'
NEEDS = 'a peer that accepts no output for more than five seconds while the server keeps trying to send'
BREAKS = 'an attempt to send that transfers nothing counts as activity and keeps the connection alive'
EDITS = [('lib/http2_conn.cpp', '''    auto result = transport_->write(write_buffer_);
    if (!result) {''', '''    auto result = transport_->write(write_buffer_);
    update_last_activity();
    if (!result) {'''),
 ('lib/http2_conn.cpp', '''        return;
    }
    update_last_activity();
    spdlog::trace("flushed {} bytes''', '''        return;
    }
    spdlog::trace("flushed {} bytes''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
#include <thread>
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    auto s = std::make_shared<Script>();
    s->writes.assign(20, 0);
    s->reads.push_back(preface());
    ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
    c.process();
    std::this_thread::sleep_for(std::chrono::milliseconds(2800));
    c.process();
    CHECK(!c.has_timed_out());
    std::this_thread::sleep_for(std::chrono::milliseconds(2800));
    CHECK(c.has_timed_out());
}
'''
