//@ cases-quick: [(f"unset_{n}", [0,n]) for n in (0,1,3)] + [(f"set_{k}_{n}", [1,k,n]) for k in (1,2,3) for n in (0,1,4)] + [("long",[2,0]),("fail",[3,0]),("change",[4,0]),("path",[5,0])]
//@ cases-thorough: [(f"unset_{n}", [0,n]) for n in range(8)] + [(f"set_{k}_{n}", [1,k,n]) for k in range(1,6) for n in range(0,12)] + [("long",[2,0]),("fail",[3,0]),("change",[4,0]),("path",[5,0])]
//@ bounds: up to three (thorough: five) key log lines of up to four (eleven) arbitrary bytes or 300 bytes with an arbitrary one, in one or two TLS contexts, to a file with arbitrary earlier contents, or that cannot be opened or written; paths of up to 1000 characters; the variable unset (with every other variable set or not), set, empty, or changed between lines
//@ outside: what the lines mean (the TLS library writes them)
//@ reach: written silent
//@ sources: lib/transports/tls_context lib/transports/tls_transport lib/socket_fd
// C36: TLS secrets are written only where SSLKEYLOGFILE says.
#include "../env/tls.h"
#include "transports/tls_context.h"
#include <cstdlib>
#include <sys/stat.h>
using namespace ion;
using Bytes = std::vector<uint8_t>;
static std::map<std::string, std::string> vars;
struct File { Bytes data; size_t opens = 0; };
static std::map<std::string, File> disk;
struct Fd { std::string name; size_t pos; bool append, write; };
static std::map<int, Fd> fds;
static int nextFd = 60, openFails = 0, writeFails = 0;
static size_t writes = 0;
extern "C" {
int ion_model_stat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_lstat(const char* p, struct stat* s) { return ion_model_stat(p, s); }
int ion_model_access(const char*, int) { return 0; }
static bool others = false;      // every other variable names a file too
static char decoy[] = "/decoy";
char* ion_model_getenv(const char* n) { auto i = vars.find(n); return i != vars.end() ? i->second.data() : others && strcmp(n, "SSLKEYLOGFILE") ? decoy : nullptr; }
char* ion_model_secure_getenv(const char* n) { return ion_model_getenv(n); }
int ion_model_open(const char* p, int fl, ...) {
    if (!*p) { errno = ENOENT; return -1; }
    if (openFails) { errno = openFails; return -1; }
    auto& f = disk[p]; ++f.opens;
    if (fl & O_TRUNC) f.data.clear();
    fds[nextFd] = Fd{p, 0, (fl & O_APPEND) != 0, (fl & O_ACCMODE) != O_RDONLY};
    return nextFd++;
}
}
static long put(int fd, const void* b, size_t n) {
    auto& d = fds[fd]; auto& f = disk[d.name].data;
    if (!d.write) { errno = EBADF; return -1; }
    if (writeFails) { errno = writeFails; return -1; }
    if (d.append) d.pos = f.size();
    if (f.size() < d.pos + n) f.resize(d.pos + n);
    if (n) memcpy(f.data() + d.pos, b, n);
    d.pos += n; ++writes;
    return (long)n;
}
static void line(tls::Ctx& c, const std::string& s) {
    if (!c.keylog) return;
    // exactly the line and its end are readable
    std::unique_ptr<char[]> z(new char[s.size() + 1]);
    memcpy(z.get(), s.c_str(), s.size() + 1);
    c.keylog(nullptr, z.get());
}
static std::string text(size_t n, const char* w) { std::string s(n, 'x'); if (n) sym_make(s.data(), n, w); for (char c : s) sym_assume(c != 0 && c != '\n'); return s; }
static Bytes plus(Bytes b, const std::string& s) { b.insert(b.end(), s.begin(), s.end()); b.push_back('\n'); return b; }
static bool same(const Bytes& a, const Bytes& b) { if (a.size() != b.size()) return false; unsigned d = 0; for (size_t i = 0; i < a.size(); ++i) d |= (unsigned)(a[i] ^ b[i]); return !d; }
int harness_main() {
    int mode = (int)sym_param(0);
    net::isFile = [](int fd) { return fds.count(fd) > 0; };
    net::fileClose = [](int fd) { fds.erase(fd); return 0; };
    net::fileWrite = put;
    net::fileRead = [](int, void*, size_t) { return 0l; };
    others = sym_bool("others");
    {
        TlsContext c("/cert", "/key");
        TlsContext c2("/cert", "/key");
        auto& x = *tls::ctxs[0]; auto& y = *tls::ctxs[1];
        Bytes old(3); sym_make(old.data(), 3, "earlier");
        disk["/keys"].data = old;
        if (mode == 0) {
            line(x, text((size_t)sym_param(1), "line"));
            line(y, text(2, "line"));
            for (auto& [n, f] : disk) sym_assert(f.opens == 0, "no file is opened unless SSLKEYLOGFILE is set");
            sym_assert(disk.size() == 1 && same(disk["/keys"].data, old) && writes == 0, "no secret is written unless SSLKEYLOGFILE is set");
            sym_reach("silent");
        } else if (mode == 1) {
            vars["SSLKEYLOGFILE"] = "/keys";
            Bytes want = old;
            bool both = sym_bool("two contexts");
            for (int i = 0; i < (int)sym_param(1); ++i) { std::string s = text((size_t)sym_param(2), "line"); line(both && (i & 1) ? y : x, s); want = plus(want, s); }
            sym_assert(same(disk["/keys"].data, want), "each line is added to the file, and what was there stays");
            sym_assert(disk.size() == 1, "secrets go to that file only");
            sym_reach("written");
        } else if (mode == 2) {
            vars["SSLKEYLOGFILE"] = "/keys";
            std::string s(300, 'k');
            uint16_t at = sym_val<uint16_t>("at"); sym_assume(at == 0 || at == 127 || at == 255 || at == 256 || at == 299);
            uint8_t b = sym_val<uint8_t>("byte"); sym_assume(b != 0 && b != '\n');
            s[(size_t)sym_concretize(at)] = (char)b;
            line(x, s); line(x, "t");
            sym_assert(same(disk["/keys"].data, plus(plus(old, s), "t")), "each line is added to the file, and what was there stays");
            sym_reach("written");
        } else if (mode == 5) {
            static const size_t len[] = {1, 15, 16, 63, 64, 65, 127, 255, 256, 1000};
            std::string p = "/" + std::string(len[sym_choose(10, "length")], 'p');
            p.back() = (char)sym_val<uint8_t>("character"); sym_assume((uint8_t)p.back() > 0x20 && (uint8_t)p.back() < 0x7f);
            sym_concretize((uint8_t)p.back());
            vars["SSLKEYLOGFILE"] = p;
            std::string s = text(2, "line");
            line(x, s); line(y, "t");
            sym_assert(disk.size() == 2 && disk.count(p), "secrets go to that file only");
            sym_assert(same(disk[p].data, plus(plus({}, s), "t")) && same(disk["/keys"].data, old), "each line is added to the file, and what was there stays");
            sym_reach("written");
        } else if (mode == 3) {
            vars["SSLKEYLOGFILE"] = sym_bool("empty") ? "" : "/keys";
            uint8_t e = sym_val<uint8_t>("errno"); sym_assume(e > 0 && e < 134);
            bool open = sym_bool("open fails");
            (open ? openFails : writeFails) = e;
            line(x, text(2, "line"));
            sym_assert(same(disk["/keys"].data, old), "a file that cannot be written stays as it was");
            openFails = writeFails = 0;
            std::string s = text(2, "line");
            line(x, s);
            if (!vars["SSLKEYLOGFILE"].empty()) sym_assert(same(disk["/keys"].data, plus(old, s)), "later lines are written");
            sym_reach("silent");
        } else {
            std::string a = text(2, "a"), b = text(2, "b"), d = text(1, "d");
            line(x, a);
            vars["SSLKEYLOGFILE"] = "/keys"; line(x, b);
            vars.erase("SSLKEYLOGFILE"); line(y, d);
            for (auto& [n, f] : disk) sym_assert(n == "/keys", "secrets go to that file only");
            Bytes w1 = plus(old, b);
            // read at start or for each line: either way nothing but what was asked for is written
            sym_assert(same(disk["/keys"].data, w1) || same(disk["/keys"].data, old), "no secret is written unless SSLKEYLOGFILE is set");
            sym_reach("written");
        }
    }
    sym_assert(fds.empty(), "the file is closed");
    return 0;
}
