//@ py: sizes = [0,1,2,5,15,16,17,255,256,4095,4096,4097,8192,8193,16384,20000]
//@ cases-quick: [(f"size_{n}", [0,n]) for n in sizes+[65537,131073,1048577]] + [(f"ext_{i}", [1,i]) for i in range(4)] + [(f"name_{n}", [2,n]) for n in (1,2,3)] + [(f"query_{n}", [3,n]) for n in (0,1,2,3)] + [(f"bare_{i}", [4,i]) for i in range(4)] + [("bad",[5,0]),("fails",[6,0]),("change",[7,0])] + [(f"twice_{i}",[8,i]) for i in range(4)]
//@ cases-thorough: [(f"size_{n}", [0,n]) for n in sizes+list(range(3,40))+[65535,65536,65537,131072,131073,300000,1048577]] + [(f"ext_{i}", [1,i]) for i in range(4)] + [(f"name_{n}", [2,n]) for n in (1,2,3,4)] + [(f"query_{n}", [3,n]) for n in range(6)] + [(f"bare_{i}", [4,i]) for i in range(4)] + [("bad",[5,0]),("fails",[6,0]),("change",[7,0])] + [(f"twice_{i}",[8,i]) for i in range(4)]
//@ bounds: GET and HEAD of files of the listed sizes (0 to 20000 bytes, 64 KiB, 128 KiB and 1 MiB plus one; thorough: 300000) with arbitrary bytes at both ends, read by the system in whole or in pieces; every known extension and unknown ones; file names with one to three (four) arbitrary bytes; queries of up to three (five) arbitrary bytes; the bare prefix in four forms; missing, unreadable and special targets; opening failing with any errno, reading failing with any errno at the start, in the middle or at the end; files that change between and during requests; sequences of two requests
//@ outside: percent-encoding (names are taken literally); extensions in capital letters
//@ assumptions: the file system calls behave as in sym/env/fs.h and std::filesystem and file streams as in sym/include (tools/fsdiff)
//@ reach: got head missing failed
//@ sources: lib/(router|static_file_handler|file_reader)
// C28: static responses carry exactly the file's bytes.
#include "../env/fs.h"
#include "router.h"
using namespace ion;
using fsm::Node; using fsm::Bytes;
static Node* base;
static Router* router;
static HttpResponse ask(const std::string& path, bool head) {
    std::string m = head ? "HEAD" : "GET";
    HttpRequest req{.method = m, .path = path, .headers = {}};
    auto r = router->get_handler(path, m)(req);
    sym_assert(fsm::openFds() == 0, "files are closed again");
    return r;
}
static std::string header(const HttpResponse& r, const char* name, size_t* count = nullptr) {
    std::string v; size_t n = 0;
    for (auto& h : r.headers) if (h.name == name) { v = h.value; ++n; }
    if (count) *count = n;
    return v;
}
static bool same(const Bytes& a, const Bytes& b) {
    if (a.size() != b.size()) return false;
    unsigned bad = 0;
    for (size_t i = 0; i < a.size(); ++i) bad |= a[i] ^ b[i];
    return !bad;
}
static void expect(const std::string& path, const Bytes& data, const char* type, bool head) {
    auto r = ask(path, head);
    sym_assert(r.status_code == 200, "a readable regular file is served");
    size_t n;
    std::string t = header(r, "content-type", &n);
    sym_assert(n == 1 && t.starts_with(type), "the content type follows the extension");
    if (head) {
        sym_assert(r.body.empty(), "HEAD has no body");
        std::string l = header(r, "content-length", &n);
        sym_assert(n == 1 && l == std::to_string(data.size()), "HEAD tells the size of the file");
        sym_reach("head");
    } else {
        sym_assert(r.body.size() == data.size(), "the body is exactly the file");
        sym_assert(same(r.body, data), "the body is exactly the file");
        header(r, "content-length", &n);
        sym_assert(n == 0 || (n == 1 && header(r, "content-length") == std::to_string(data.size())), "a length told is that of the file");
        sym_reach("got");
    }
}
static Bytes contents(size_t n, const char* name = "data") {
    Bytes b(n);
    for (size_t i = 0; i < n; ++i) b[i] = (uint8_t)(i * 31 + (i >> 8));
    if (n <= 32) sym_make(b.data(), n, name);
    else { sym_make(b.data(), 8, name); sym_make(b.data() + n - 8, 8, name); sym_make(b.data() + n / 2, 4, name); }
    return b;
}
static const char* kTypes[][2] = {{".html", "text/html"}, {".htm", "text/html"}, {".css", "text/css"}, {".js", "application/javascript"}, {".json", "application/json"}, {".xml", "application/xml"}, {".png", "image/png"}, {".jpg", "image/jpeg"}, {".jpeg", "image/jpeg"}, {".gif", "image/gif"}, {".svg", "image/svg+xml"}, {".ico", "image/x-icon"}, {".txt", "text/plain"}, {".pdf", "application/pdf"}, {".zip", "application/zip"}, {".woff", "font/woff"}, {".woff2", "font/woff2"}, {".ttf", "font/ttf"}, {".webp", "image/webp"}, {".zzz", "application/octet-stream"}, {"", "application/octet-stream"}, {".tar.gz", "application/octet-stream"}, {".png.zzz", "application/octet-stream"}, {".zzz.png", "image/png"}, {".", "application/octet-stream"}, {".htmlx", "application/octet-stream"}, {".ht", "application/octet-stream"}};
static size_t pick(size_t n, const char* name) { uint8_t v = sym_val<uint8_t>(name); sym_assume(v < n); return (size_t)sym_concretize(v); }
int harness_main() {
    int mode = (int)sym_param(0), k = (int)sym_param(1);
    fsm::start();
    Node* srv = fsm::dir(fsm::root, "srv");
    base = fsm::dir(srv, "www");
    fsm::cwd = srv;
    Router r; router = &r;
    static const char* kPrefix[] = {"/st", "/st/", "/static/files", "/"};
    const char* prefix = kPrefix[mode == 4 ? k : 0];
    auto at = [&](const std::string& p) { std::string x = prefix; if (x.back() != '/') x += '/'; return x + p; };
    r.add_static_handler(std::make_unique<StaticFileHandler>(prefix, sym_bool("relative") ? "www" : "/srv/www/"));
    bool head = mode == 8 ? false : sym_bool("head");
    if (mode == 0) {
        Bytes d = contents((size_t)k);
        Node* f = fsm::file(base, "f.txt", d);
        if (sym_bool("pieces")) f->maxRead = k > 100 ? (size_t)k / 3 + 1 : 1;
        expect(at("f.txt"), d, "text/plain", head);
    } else if (mode == 1) {
        size_t i = pick(std::size(kTypes), "ext");
        Bytes d = contents(3);
        static const char* dirs[] = {"", "d", "v1.2", "a.html"};
        Node* w = *dirs[k] ? fsm::dir(base, dirs[k]) : base;
        std::string name = std::string("f") + kTypes[i][0];
        fsm::file(w, name, d);
        expect(at(std::string(dirs[k]) + (*dirs[k] ? "/" : "") + name), d, kTypes[i][1], head);
    } else if (mode == 2) {
        std::string name(k, 0);
        sym_make(name.data(), k, "name");
        bool ok = true;
        for (char c : name) ok = ok & (c != 0) & (c != '/') & (c != '?') & (c != '.') & (c != '%') & (c != '#') & (c != '\\');
        sym_assume(ok);
        Bytes d = contents(2);
        fsm::file(base, name + ".css", d);
        expect(at(name + ".css"), d, "text/css", head);
    } else if (mode == 3) {
        Bytes d = contents(4), e = contents(3, "other"), i = contents(2, "index");
        fsm::file(base, "f.txt", d); fsm::file(base, "g", e); fsm::file(base, "index.html", i);
        std::string q(k, 0);
        sym_make(q.data(), k, "query");
        size_t which = pick(4, "target");
        if (which == 0) expect(at("f.txt") + "?" + q, d, "text/plain", head);
        else if (which == 1) expect(at("g") + "?" + q, e, "application/octet-stream", head);
        else if (which == 2) expect(std::string(prefix) + "?" + q, i, "text/html", head);
        else expect(std::string(prefix) + "/?" + q, i, "text/html", head);
    } else if (mode == 4) {
        bool there = sym_bool("there");
        Bytes i = contents(6, "index");
        if (there) fsm::file(base, "index.html", i);
        std::string p = prefix;
        size_t form = pick(4, "form");
        if (form & 1) { if (p.back() == '/') return 0; p += '/'; }
        if (form & 2) p += "?v=1";
        if (there) expect(p, i, "text/html", head);
        else { sym_assert(ask(p, head).status_code == 404, "a missing index gives 404"); sym_reach("missing"); }
        Bytes d = contents(3);
        fsm::file(base, "f.css", d);
        expect(at("f.css"), d, "text/css", head);
    } else if (mode == 5) {
        Node* d = fsm::dir(base, "d");
        fsm::file(d, "x", contents(3));
        fsm::file(base, "secret", contents(3))->readable = false;
        fsm::add(base, fsm::Pipe, "pipe");
        fsm::link(base, "gone", "none");
        fsm::link(base, "loop", "loop");
        fsm::file(base, "f", contents(3));
        static const char* bad[] = {"none", "d", "d/", "d/none", "secret", "pipe", "gone", "f/x", "d/x/y", "none/x", ".", "index.html", "x"};
        std::string t = bad[pick(std::size(bad), "target")];
        bool index = t != "index.html" && sym_bool("index");       // stands for the prefix alone
        if (index) fsm::file(base, "index.html", contents(2));
        auto resp = ask(at(t), head);
        sym_assert(resp.status_code == 404, "a missing, unreadable or non-regular target gives 404");
        sym_assert(resp.body.empty(), "nothing of such a target is told");
        sym_reach("missing");
    } else if (mode == 6) {
        Bytes d = contents(20);
        Node* f = fsm::file(base, "f.txt", d);
        uint8_t e = sym_val<uint8_t>("errno"); sym_assume(e >= 1 && e <= 133 && e != EINTR && e != EAGAIN);
        size_t how = pick(5, "how");
        if (how == 0) fsm::openErr = e;
        else { f->readErr = e; f->readErrAt = how == 1 ? 0 : how == 2 ? 7 : how == 3 ? 19 : 20; if (sym_bool("pieces")) f->maxRead = 6; }
        auto resp = ask(at("f.txt"), head);
        if (how == 4 && !head) sym_assert((resp.status_code == 200 && same(resp.body, d)) || (int)resp.status_code >= 400, "a file that was read is served whole");
        else if (!head) { sym_assert((int)resp.status_code >= 400, "a failed read gives an error status"); sym_assert(resp.body.empty(), "a failed read sends no part of the file"); sym_reach("failed"); }
        else sym_assert(resp.status_code == 200 ? header(resp, "content-length") == "20" : (int)resp.status_code >= 400, "HEAD tells the size of the file");
        fsm::openErr = 0; f->readErr = 0;
        expect(at("f.txt"), d, "text/plain", head);
    } else if (mode == 7) {
        // the size told is not what can be read
        Bytes d = contents(9);
        Node* f = fsm::file(base, "f.txt", d);
        int8_t g = sym_val<int8_t>("grow"); sym_assume(g >= -9 && g <= 9);
        f->grow = (int8_t)sym_concretize((uint8_t)g);
        if (sym_bool("pieces")) f->maxRead = 4;
        auto resp = ask(at("f.txt"), head);
        if (!head && resp.status_code == 200) {
            sym_assert(resp.body.size() <= 9, "the body is made of the file's bytes");
            sym_assert(same(resp.body, Bytes(d.begin(), d.begin() + resp.body.size())), "the body is made of the file's bytes");
            if (f->grow >= 0) sym_assert(resp.body.size() == 9, "the body is exactly the file");
        } else if (!head) sym_assert((int)resp.status_code >= 400, "a failed read gives an error status");
    } else {
        // one request does not affect the next
        Bytes d = contents(5), e = contents(4, "other");
        Node* f = fsm::file(base, "a.txt", d);
        fsm::file(base, "b.css", e);
        bool h2 = sym_bool("head2");
        if (k == 0) { expect(at("a.txt"), d, "text/plain", sym_bool("head1")); expect(at("b.css"), e, "text/css", h2); expect(at("a.txt"), d, "text/plain", h2); }
        if (k == 1) { expect(at("a.txt"), d, "text/plain", sym_bool("head1")); f->data = contents(7, "new"); f->mtime += 5; Bytes n = f->data; expect(at("a.txt"), n, "text/plain", h2); }
        if (k == 2) { expect(at("a.txt"), d, "text/plain", sym_bool("head1")); f->name = "moved"; sym_assert(ask(at("a.txt"), h2).status_code == 404, "a missing file gives 404"); f->name = "a.txt"; expect(at("a.txt"), d, "text/plain", h2); }
        if (k == 3) { sym_assert(ask(at("c.txt"), sym_bool("head1")).status_code == 404, "a missing file gives 404"); fsm::file(base, "c.txt", e); expect(at("c.txt"), e, "text/plain", h2); }
    }
    return 0;
}
