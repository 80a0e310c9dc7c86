//@ py: bases = range(7)
//@+ part = lambda b, k, m: [(f"parts_{b}_{k}_{f}", [1,b,k,f,m]) for f in range(13)]
//@+ quick = sum([part(0, k, 3) for k in (1,2)], []) + part(0, 3, 0) + sum([part(b, k, 2) for b in range(1,7) for k in (1,2)], [])
//@+ deep = sum([part(b, k, 3) for b in range(7) for k in (1,2,3)], []) + sum([part(b, 4, 0) for b in (0,3)], [])
//@ cases-quick: [(f"bytes_{n}", [0,0,n]) for n in range(0,6)] + [(f"base{b}_bytes_3", [0,b,3]) for b in bases if b] + quick + [("long",[2,0])]
//@ cases-thorough: [(f"bytes_{n}", [0,0,n]) for n in range(0,8)] + [(f"base{b}_bytes_{n}", [0,b,n]) for b in bases if b for n in range(6)] + deep + [("long",[2,0])]
//@ time-quick: 90
//@ bounds: a tree with files in, above and beside the served directory (whose siblings share its name as a prefix), links inside it to files and directories inside and outside (relative, absolute, chained, dangling, circular), and unreadable and special files; seven ways to name the served directory (absolute, trailing slash, relative, through a link, with dots, the root, the current directory); GET and HEAD of the prefix followed by up to 5 (thorough: 7) arbitrary bytes, or by up to three (four) components from a list of thirteen, with either separator
//@ outside: the file system changing between the check of a path and its opening; longer paths
//@ assumptions: the file system calls behave as in sym/env/fs.h and std::filesystem as in libstdc++ 13 (tools/fsdiff)
//@ reach: served refused
//@ sources: lib/(router|static_file_handler|file_reader)
// C27: static serving never escapes the configured directory.
#include "../env/fs.h"
#include "router.h"
using namespace ion;
using fsm::Node;
static Node *base, *outside;
static const char* kBase[] = {"/srv/www", "/srv/www/", "www", "/srv/lw", "/srv/./x/../www/.", "/", "."};
static int64_t flags = 3;
static void tree() {
    fsm::start();
    Node* srv = fsm::dir(fsm::root, "srv");
    base = fsm::dir(srv, "www");
    fsm::dir(srv, "x");
    Node* sib = fsm::dir(srv, "www2");
    fsm::file(sib, "s", std::string(3, 'S'));
    fsm::link(srv, "lw", "www");
    fsm::file(srv, "a", std::string(5, 'A'));
    fsm::file(fsm::root, "a", std::string(6, 'R'));
    Node* etc = fsm::dir(fsm::root, "etc");
    fsm::file(etc, "p", std::string(7, 'P'));
    fsm::file(base, "index.html", std::string(11, 'i'));
    fsm::file(base, "a", std::string(12, 'a'));
    Node* d = fsm::dir(base, "d");
    fsm::file(d, "a", std::string(13, 'd'));
    fsm::link(d, "u", "../..");                 // out of the directory
    fsm::link(d, "r", "../a");                  // inside
    fsm::file(d, "f", std::string(13, 'D'));    // of the same name as a link that leads out
    fsm::dir(d, "e");
    fsm::link(base, "k", "d/e");
    fsm::link(base, "o", "/etc");               // out
    fsm::link(base, "f", "/etc/p");             // a file outside
    fsm::link(base, "c", "o/p");                // through another link
    fsm::link(base, "w", "../www2");
    fsm::link(base, "n", "/etc/none");
    fsm::link(base, "l", "l");
    fsm::file(base, "q", std::string(14, 'q'))->readable = false;
    fsm::add(base, fsm::Pipe, "pp");
    fsm::cwd = srv;
}
static void request(Router& r, const std::string& path) {
    bool head = (flags & 2) && sym_bool("head");
    fsm::opened.clear();
    std::string p = path, m = head ? "HEAD" : "GET";
    HttpRequest req{.method = m, .path = p, .headers = {}};
    auto h = r.get_handler(p, m);
    HttpResponse resp = h(req);
    for (Node* n : fsm::opened) sym_assert(fsm::inside(n, base), "a file outside the directory is not opened");
    sym_assert(fsm::openFds() == 0, "files are closed again");
    if (resp.status_code == 200) {
        // what was told belongs to a file inside: sizes and contents are all different
        size_t size = resp.body.size();
        if (head) { size = 0; for (auto& x : resp.headers) if (x.name == "content-length") size = (size_t)atol(x.value.c_str()); }
        bool ok = (size >= 11 && size <= 13) || base == fsm::root;
        sym_assert(ok, "nothing is told about files outside the directory");
        sym_reach("served");
    } else { sym_assert(fsm::opened.empty() || resp.status_code == 500, "a refused request opens no file"); sym_reach("refused"); }
}
static const char* kPart[] = {"..", ".", "", "d", "u", "o", "w", "nx", "a", "p", "f", "c", "k"};
static const char* kLast[] = {"..", "", "a", "p", "s", "f", "c", "n", "l", "pp", "r", "etc", "srv", "www2", "index.html"};
int harness_main() {
    int mode = (int)sym_param(0), b = (int)sym_param(1);
    tree();
    Router r;
    if (b == 6) fsm::cwd = base;
    if (b == 5) base = fsm::root;
    r.add_static_handler(std::make_unique<StaticFileHandler>("/st", kBase[b]));
    if (mode == 0) {
        size_t n = (size_t)sym_param(2);
        std::string t(n, 0);
        sym_make(t.data(), n, "path");
        request(r, "/st" + t);
    } else if (mode == 1) {
        int k = (int)sym_param(2), f = (int)sym_param(3);
        flags = sym_param(4);
        std::string t = "/st";
        for (int i = 0; i < k; ++i) {
            uint8_t x = sym_val<uint8_t>("part"); sym_assume(x < 13);
            if (i == 0) sym_assume(x == f);
            t += "/"; t += kPart[sym_concretize(x)];
        }
        uint8_t x = sym_val<uint8_t>("last"); sym_assume(x < 15);
        t += "/"; t += kLast[sym_concretize(x)];
        uint8_t e = sym_val<uint8_t>("end"); sym_assume(e < 4 && (e == 0 || (flags & 1)));
        e = (uint8_t)sym_concretize(e);
        if (e == 1) t += '/';
        if (e == 2) t += "?/../../a";
        if (e == 3) { t += '\0'; t += ".html"; }
        request(r, t);
    } else {
        uint8_t x = sym_val<uint8_t>("what"); sym_assume(x < 6);
        x = (uint8_t)sym_concretize(x);
        std::string t = "/st/";
        if (x == 0) t += std::string(300, 'a');
        if (x == 1) for (int i = 0; i < 60; ++i) t += "d/../";
        if (x == 2) for (int i = 0; i < 60; ++i) t += "../";
        if (x == 3) for (int i = 0; i < 60; ++i) t += "nx/";
        if (x == 4) for (int i = 0; i < 30; ++i) t += "nx/../";
        if (x == 5) t += std::string(5000, '/');
        t += sym_bool("end") ? "o/p" : "a";
        request(r, t);
    }
    return 0;
}
