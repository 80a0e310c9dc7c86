PROPERTY = 'C37'
NEEDS = 'a request with more than 64 fields'
BREAKS = 'the handler sees only the first 64'
EDITS = [('lib/http2_conn.cpp', '''HttpRequest req{.method = *method, .path = *path, .headers = headers};''', '''HttpRequest req{.method = *method, .path = *path, .headers = headers};
    if (req.headers.size() > 64) {
        req.headers.resize(64);
    }''')]
SOURCES = CONN
DEMO = r'''#include "conn_kit.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    ion::Router r;
    size_t seen = 0;
    r.add_route("/", "GET", [&](const ion::HttpRequest& q) { seen = q.headers.size(); return ion::HttpResponse{200}; });
    auto s = std::make_shared<Script>();
    Bytes extra;
    for (int i = 0; i < 70; ++i) extra = extra + lit("x-" + std::to_string(i), "v");
    s->reads.push_back(preface() + request(1, "/", extra));
    ion::Http2Connection c(std::make_unique<FakeTransport>(s), "x", r);
    c.process();
    CHECK(seen == 72);
}
'''
