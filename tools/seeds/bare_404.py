PROPERTY = 'C30'
NEEDS = 'a router with middleware and a static mapping, asked with a method other than GET and HEAD for something it has no route for'
BREAKS = 'the 404 of such a request bypasses the middleware'
EDITS = [('lib/router.cpp', '    return middleware_chain_(std::move(target));', '''    if (!found && !static_handlers_.empty() && method != "GET" && method != "HEAD") {
        return target;
    }
    return middleware_chain_(std::move(target));''')]
SOURCES = 'lib/router.cpp lib/static_file_handler.cpp lib/file_reader.cpp'
DEMO = r'''#include "conn_kit.h"
#include <unistd.h>
#include "router.h"
int main() {
    char d[] = "/tmp/bare404XXXXXX";
    CHECK(mkdtemp(d) != nullptr);
    ion::Router r;
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/s", d));
    int calls = 0;
    r.add_middleware([&](ion::RouteHandler h) { return [&calls, h](const ion::HttpRequest& q) { ++calls; return h(q); }; });
    std::string p = "/x";
    ion::HttpRequest q{.method = "POST", .path = p, .headers = {}};
    const int got = r.get_handler(p, "POST")(q).status_code;
    rmdir(d);
    CHECK(got == 404);
    CHECK(calls == 1);
}
'''
