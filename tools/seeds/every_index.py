PROPERTY = 'C28'
NEEDS = 'a path that ends in a slash below the prefix while the directory has an index'
BREAKS = 'such a path is answered with the index of the top directory instead of 404'
EDITS = [('lib/static_file_handler.cpp', '''if (rel_path.empty() || rel_path == "/") {''', '''if (rel_path.empty() || rel_path.back() == '/') {''')]
SOURCES = 'lib/router.cpp lib/static_file_handler.cpp lib/file_reader.cpp'
DEMO = r'''#include "conn_kit.h"
#include <filesystem>
#include <fstream>
#include "router.h"
namespace fs = std::filesystem;
int main() {
    spdlog::set_level(spdlog::level::off);
    fs::path w = fs::current_path() / "www";
    fs::create_directories(w / "d");
    std::ofstream(w / "index.html") << "top";
    ion::Router r;
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/st", w.string()));
    auto ask = [&](std::string p) { ion::HttpRequest q{.method = "GET", .path = p, .headers = {}}; return r.get_handler(p, "GET")(q).status_code; };
    int top = ask("/st/"), sub = ask("/st/d/"), none = ask("/st/none/");
    fs::remove_all(w);
    CHECK(top == 200);
    CHECK(sub == 404 && none == 404);
}
'''
