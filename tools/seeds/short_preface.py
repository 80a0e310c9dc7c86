PROPERTY = 'C13'
NEEDS = 'an opening that agrees with the client preface in its first 18 bytes only'
BREAKS = 'the last bytes of the preface are not compared'
EDITS = [('lib/http2_conn.cpp', 'if (received != CLIENT_PREFACE) {', 'if (!received.starts_with(CLIENT_PREFACE.substr(0, CLIENT_PREFACE.find("SM")))) {')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    for (size_t i = 0; i < 25; ++i) {
        ion::Router r;
        auto s = std::make_shared<Script>();
        Bytes p = preface();
        if (i < 24) p[i] ^= 1;
        s->reads.push_back(p);
        ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
        auto res = c.process();
        CHECK((res == ion::Http2ProcessResult::DiscardConnection) == (i < 24));
        CHECK(s->out.empty() == (i < 24));
    }
}
'''
