PROPERTY = 'C18'
NEEDS = 'a request that has a :path but no :method'
BREAKS = 'it is treated as a GET and reaches a handler instead of being answered 400'
EDITS = [('lib/http2_conn.cpp', '''    if (!path || !method) {
''', '''    if (path && !method) {
        method = "GET";
    }

    if (!path || !method) {
''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    int calls = 0;
    r.add_route("/", "GET", [&](const ion::HttpRequest&) { ++calls; return ion::HttpResponse{200}; });
    auto s = std::make_shared<Script>();
    s->reads.push_back(preface() + frame(1, 5, 1, lit(":path", "/")));
    ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
    c.process();
    auto f = frames(s->out);
    CHECK(calls == 0 && f.size() == 2 && f[1].type == 1 && f[1].p[0] == 0x80 + 12);   // :status 400
}
'''
