PROPERTY = 'C27'
NEEDS = 'inside the directory, a link that leads down and, in the directory itself, a link that leads out with the name of a file beside the first one\'s target'
BREAKS = 'the canonical path is checked but the lexically normalised one is opened, so "down/../name" opens the link that leads out'
EDITS = [('lib/file_reader.cpp', '        return full.string();', '        return combined.lexically_normal().string();')]
SOURCES = 'lib/router.cpp lib/static_file_handler.cpp lib/file_reader.cpp'
DEMO = r'''#include "conn_kit.h"
#include <filesystem>
#include <fstream>
#include "router.h"
namespace fs = std::filesystem;
int main() {
    spdlog::set_level(spdlog::level::off);
    fs::path w = fs::current_path() / "tree";
    fs::create_directories(w / "www/d/e");
    std::ofstream(w / "secret") << "SECRET";
    std::ofstream(w / "www/d/f") << "fine";
    fs::create_symlink("d/e", w / "www/k");
    fs::create_symlink("../secret", w / "www/f");
    ion::Router r;
    r.add_static_handler(std::make_unique<ion::StaticFileHandler>("/st", (w / "www").string()));
    std::string p = "/st/k/../f";
    ion::HttpRequest q{.method = "GET", .path = p, .headers = {}};
    auto x = r.get_handler(p, "GET")(q);
    std::string b(x.body.begin(), x.body.end());
    fs::remove_all(w);
    CHECK(b.find("SECRET") == std::string::npos);
}
'''
