// A file system: directories, files, links and pipes in memory, behind the POSIX calls.
#pragma once
#include <ionsym.h>
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>
namespace fsm {
using Bytes = std::vector<uint8_t>;
enum Type { Dir, File, Link, Pipe };
struct Node {
    Type type; std::string name; Node* up = nullptr;
    std::vector<std::unique_ptr<Node>> kids;
    std::string target;            // Link
    Bytes data;                    // File
    bool readable = true;          // File: may be opened; Dir: may be searched
    int readErr = 0;               // reading fails with this once readErrAt bytes were read
    size_t readErrAt = 0, maxRead = ~0ull;
    long grow = 0;                 // bytes by which the size told differs from what can be read (file changed meanwhile)
    int ino = 0;
    size_t opens = 0;
    long mtime = 1000;
};
struct Open { Node* n; size_t pos = 0; int flags = 0; bool live = true; };
inline std::vector<Open> fds;
inline const int kFirst = 40;
inline Node* root = nullptr;
inline Node* cwd = nullptr;
inline int nodes = 0;
inline int openErr = 0;               // opening files fails with this
inline std::function<void(Node*)> onOpen;
inline std::vector<Node*> opened;
inline Node* add(Node* d, Type t, const std::string& name) {
    auto n = std::make_unique<Node>(); n->type = t; n->name = name; n->up = d; n->ino = ++nodes;
    Node* r = n.get();
    if (d) d->kids.push_back(std::move(n)); else { n->up = r; root = n.release(); if (!cwd) cwd = r; }
    return r;
}
inline Node* dir(Node* d, const std::string& n) { return add(d, Dir, n); }
inline Node* file(Node* d, const std::string& n, Bytes b) { Node* f = add(d, File, n); f->data = std::move(b); return f; }
inline Node* file(Node* d, const std::string& n, const std::string& b) { return file(d, n, Bytes(b.begin(), b.end())); }
inline Node* link(Node* d, const std::string& n, const std::string& to) { Node* f = add(d, Link, n); f->target = to; return f; }
inline void start() { if (!root) add(nullptr, Dir, ""); }
inline Node* child(Node* d, const char* s, size_t n) {
    for (auto& k : d->kids) if (k->name.size() == n && memcmp(k->name.data(), s, n) == 0) return k.get();
    return nullptr;
}
// what a path names; sets err. With last == false the final link is not followed.
inline Node* walk(Node* at, const char* p, bool last, int& err, int depth = 0) {
    err = 0;
    if (depth > 40) { err = ELOOP; return nullptr; }
    size_t n = strlen(p);
    if (n == 0) { err = ENOENT; return nullptr; }
    if (n >= PATH_MAX) { err = ENAMETOOLONG; return nullptr; }
    size_t i = 0;
    if (p[0] == '/') at = root;
    while (i < n) {
        while (i < n && p[i] == '/') ++i;
        if (i == n) { if (at->type != Dir) { err = ENOTDIR; return nullptr; } break; }
        size_t j = i;
        while (j < n && p[j] != '/') ++j;
        if (at->type != Dir) { err = ENOTDIR; return nullptr; }
        if (!at->readable) { err = EACCES; return nullptr; }
        if (j - i > 255) { err = ENAMETOOLONG; return nullptr; }
        if (j - i == 1 && p[i] == '.') { i = j; continue; }
        if (j - i == 2 && p[i] == '.' && p[i + 1] == '.') { at = at->up; i = j; continue; }
        Node* k = child(at, p + i, j - i);
        if (!k) { err = ENOENT; return nullptr; }
        if (k->type == Link && (last || j < n)) {
            k = walk(at, k->target.c_str(), true, err, depth + 1);
            if (!k) return nullptr;
        }
        at = k;
        i = j;
    }
    return at;
}
inline std::string pathOf(Node* n) { if (n == root) return "/"; std::string s; for (; n != root; n = n->up) s = "/" + n->name + s; return s; }
inline bool inside(Node* n, Node* d) { for (;; n = n->up) { if (n == d) return true; if (n == root) return false; } }
inline void fill(struct stat* s, Node* n) {
    memset(s, 0, sizeof *s);
    s->st_mode = n->type == Dir ? S_IFDIR | 0755 : n->type == File ? S_IFREG | 0644 : n->type == Link ? S_IFLNK | 0777 : S_IFIFO | 0644;
    if (!n->readable) s->st_mode &= S_IFMT;
    s->st_size = n->type == File ? (off_t)((long)n->data.size() + n->grow) : n->type == Link ? (off_t)n->target.size() : n->type == Dir ? 4096 : 0;
    s->st_ino = (ino_t)n->ino; s->st_dev = 1; s->st_nlink = 1; s->st_blksize = 4096; s->st_mtime = n->mtime;
}
inline int fail(int e) { errno = e; return -1; }
inline int doStat(const char* p, struct stat* s, bool follow) { int e; Node* n = walk(cwd, p, follow, e); if (!n) return fail(e); fill(s, n); return 0; }
inline int doOpen(const char* p, int flags) {
    int e; Node* n = walk(cwd, p, !(flags & O_NOFOLLOW), e);
    if (!n) return fail(e);
    if (n->type == Link) return fail(ELOOP);
    if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC))) { if (n->type == Dir) return fail(EISDIR); sym_fail("a file is opened for writing"); }
    if (n->type != Dir && (flags & O_DIRECTORY)) return fail(ENOTDIR);
    if (n->type == Pipe && !(flags & O_NONBLOCK)) sym_fail("opening a pipe blocks the server");
    if (!n->readable) return fail(EACCES);
    if (openErr && n->type == File) return fail(openErr);
    if (!(flags & O_PATH) && n->type != Dir) { ++n->opens; opened.push_back(n); if (onOpen) onOpen(n); }
    fds.push_back(Open{n, 0, flags});
    return kFirst + (int)fds.size() - 1;
}
inline Open* at(int fd) { if (fd < kFirst || (size_t)(fd - kFirst) >= fds.size() || !fds[fd - kFirst].live) return nullptr; return &fds[fd - kFirst]; }
inline long doRead(Open* o, void* b, size_t n, size_t pos) {
    if (o->n->type == Dir) return fail(EISDIR);
    if (o->n->readErr && pos >= o->n->readErrAt) return fail(o->n->readErr);
    if (pos >= o->n->data.size()) return 0;
    size_t k = o->n->data.size() - pos;
    if (k > n) k = n;
    if (k > o->n->maxRead) k = o->n->maxRead;
    if (o->n->readErr && k > o->n->readErrAt - pos) k = o->n->readErrAt - pos;
    memcpy(b, o->n->data.data() + pos, k);
    return (long)k;
}
inline int doClose(int fd) { auto* o = at(fd); if (!o) { sym_fail("a descriptor that is not open is closed"); } o->live = false; return 0; }
inline long doReadFd(int fd, void* b, size_t n) { auto* o = at(fd); if (!o) return fail(EBADF); long k = doRead(o, b, n, o->pos); if (k > 0) o->pos += (size_t)k; return k; }
#ifdef ION_NET_MODEL
inline void withNet() { net::isFile = [](int fd) { return at(fd) != nullptr; }; net::fileClose = doClose; net::fileRead = doReadFd; }
#endif
inline size_t openFds() { size_t n = 0; for (auto& o : fds) n += o.live; return n; }
struct Stream { int fd; bool err = false, eof = false; };
}  // namespace fsm
extern "C" {
int ion_model_stat(const char* p, struct stat* s) { return fsm::doStat(p, s, true); }
int ion_model_lstat(const char* p, struct stat* s) { return fsm::doStat(p, s, false); }
int ion_model_fstatat(int, const char* p, struct stat* s, int fl) { return fsm::doStat(p, s, !(fl & AT_SYMLINK_NOFOLLOW)); }
int ion_model_fstat(int fd, struct stat* s) { auto* o = fsm::at(fd); if (!o) return fsm::fail(EBADF); fsm::fill(s, o->n); return 0; }
int ion_model_access(const char* p, int mode) { int e; auto* n = fsm::walk(fsm::cwd, p, true, e); if (!n) return fsm::fail(e); if ((mode & R_OK) && !n->readable) return fsm::fail(EACCES); return 0; }
int ion_model_faccessat(int, const char* p, int mode, int) { return ion_model_access(p, mode); }
int ion_model_open(const char* p, int flags, ...) { return fsm::doOpen(p, flags); }
int ion_model_openat(int, const char* p, int flags, ...) { return fsm::doOpen(p, flags); }
#ifndef ION_NET_MODEL
int ion_model_close(int fd) { return fsm::doClose(fd); }
ssize_t ion_model_read(int fd, void* b, size_t n) { return fsm::doReadFd(fd, b, n); }
#else
int ion_model_close(int fd);
ssize_t ion_model_read(int fd, void* b, size_t n);
#endif
ssize_t ion_model_pread(int fd, void* b, size_t n, off_t at) { auto* o = fsm::at(fd); if (!o) return fsm::fail(EBADF); return fsm::doRead(o, b, n, (size_t)at); }
off_t ion_model_lseek(int fd, off_t off, int wh) {
    auto* o = fsm::at(fd); if (!o) return fsm::fail(EBADF);
    if (o->n->type == fsm::Dir) { if (wh == SEEK_END) return LONG_MAX; o->pos = (size_t)off; return off; }
    if (o->n->type == fsm::Pipe) return fsm::fail(ESPIPE);
    long base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (long)o->pos : (long)o->n->data.size() + o->n->grow;
    if (base + off < 0) return fsm::fail(EINVAL);
    o->pos = (size_t)(base + off);
    return (off_t)o->pos;
}
ssize_t ion_model_readlink(const char* p, char* b, size_t n) { int e; auto* k = fsm::walk(fsm::cwd, p, false, e); if (!k) return fsm::fail(e); if (k->type != fsm::Link) return fsm::fail(EINVAL); size_t m = k->target.size() < n ? k->target.size() : n; memcpy(b, k->target.data(), m); return (ssize_t)m; }
char* ion_model_getcwd(char* b, size_t n) { std::string s = fsm::pathOf(fsm::cwd); if (!b) b = (char*)malloc(n > s.size() ? n : s.size() + 1); else if (n <= s.size()) { errno = ERANGE; return nullptr; } memcpy(b, s.c_str(), s.size() + 1); return b; }
char* ion_model_realpath(const char* p, char* b) { int e; auto* k = fsm::walk(fsm::cwd, p, true, e); if (!k) { errno = e; return nullptr; } std::string s = fsm::pathOf(k); if (!b) b = (char*)malloc(s.size() + 1); memcpy(b, s.c_str(), s.size() + 1); return b; }
FILE* ion_model_fopen(const char* p, const char* m) { if (m[0] != 'r') sym_fail("a file is opened for writing"); int fd = fsm::doOpen(p, O_RDONLY); if (fd < 0) return nullptr; return (FILE*)new fsm::Stream{fd}; }
FILE* ion_model_fdopen(int fd, const char*) { return (FILE*)new fsm::Stream{fd}; }
int ion_model_fclose(FILE* f) { auto* s = (fsm::Stream*)f; ion_model_close(s->fd); delete s; return 0; }
size_t ion_model_fread(void* b, size_t sz, size_t n, FILE* f) {
    auto* s = (fsm::Stream*)f; size_t want = sz * n, got = 0;
    while (got < want) { ssize_t k = ion_model_read(s->fd, (char*)b + got, want - got); if (k < 0) { s->err = true; break; } if (k == 0) { s->eof = true; break; } got += (size_t)k; }
    return sz ? got / sz : 0;
}
int ion_model_fseek(FILE* f, long o, int w) { auto* s = (fsm::Stream*)f; s->eof = false; return ion_model_lseek(s->fd, o, w) < 0 ? -1 : 0; }
long ion_model_ftell(FILE* f) { return ion_model_lseek(((fsm::Stream*)f)->fd, 0, SEEK_CUR); }
void ion_model_rewind(FILE* f) { ion_model_fseek(f, 0, SEEK_SET); }
int ion_model_feof(FILE* f) { return ((fsm::Stream*)f)->eof; }
int ion_model_ferror(FILE* f) { return ((fsm::Stream*)f)->err; }
int ion_model_fileno(FILE* f) { return ((fsm::Stream*)f)->fd; }
}
