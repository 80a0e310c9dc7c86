// The TLS library as the server sees it.  Results of operations are scripted, or follow the socket model (net.h) with
// the plain bytes on the wire.  The error queue and SSL_get_error follow OpenSSL 3: entries stay until somebody takes
// or clears them, only the handshake clears the queue before it starts, and any entry makes SSL_get_error report failure.
#pragma once
#include "net.h"
#include <openssl/err.h>
#include <openssl/ssl.h>
namespace tls {
enum class Op { Accept, Read, Write, Shutdown };
enum class Kind { Done, WantRead, WantWrite, Zero, Error, Eof, Syscall, SysQueued };
struct Ctx { int refs = 1; std::string certPath, keyPath; bool freed = false, cert = false, key = false; unsigned long mode = 0; SSL_CTX_alpn_select_cb_func alpn = nullptr; void* alpnArg = nullptr; SSL_CTX_keylog_cb_func keylog = nullptr; };
struct Ssl {
    Ctx* ctx = nullptr;
    int fd = -1;
    int frees = 0;
    int want = SSL_NOTHING;
    bool zero = false, hello = false;      // close_notify came; handshake done
    bool wantBio = true;
    const void* pend = nullptr; size_t pendLen = 0, pendDone = 0;   // write to be repeated
    size_t shutdowns = 0, ops = 0;
    unsigned long mode = 0;
    int flight = 0; std::vector<uint8_t> raw, plain; size_t rawNeed = 0, plainPos = 0;   // record mode: what came but is no whole record; decrypted and not yet read
    std::vector<uint8_t> sealed; size_t sealedAt = 0, sealedLen = 0;                            // record mode: protected bytes not yet on the wire
};
// Record mode: the client's side of the wire is "C....", then "F....", then records "R" length(2) bytes, "K" 0 0 (nothing
// for the application) and "A" 0 0 (close notification); the server's is 40 bytes and then such records.
inline bool records = false;
inline int sysErrno = ECONNRESET;       // what a system error leaves in errno
inline constexpr size_t kFlight = 40, kRecord = 16384;
inline std::vector<std::unique_ptr<Ssl>> ssls;
inline std::vector<std::unique_ptr<Ctx>> ctxs;
inline std::vector<unsigned long> queue;
inline std::function<bool(Ssl&, Op, void*, size_t, int&)> script;   // decides an operation's result (sets want, zero, queue)
inline int newFailAt = -1, newCalls = 0, setFdFailAt = -1, setFdCalls = 0;
inline bool ctxFails = false, certFails = false, keyFails = false, mismatch = false;
inline std::function<void(Ssl&)> onFree;
inline unsigned long pack(int lib, int reason) { return ((unsigned long)lib << ERR_LIB_OFFSET) | (unsigned long)reason; }
inline Ssl& of(const SSL* s) {
    for (auto& x : ssls) if ((const void*)x.get() == (const void*)s) { if (x->frees) sym_fail("a TLS session is used after it was freed"); return *x; }
    sym_fail("a TLS function is called without a session");
}
inline Ctx& of(const SSL_CTX* s) {
    for (auto& x : ctxs) if ((const void*)x.get() == (const void*)s) { if (x->freed) sym_fail("a TLS context is used after it was freed"); return *x; }
    sym_fail("a TLS function is called without a context");
}
inline Ssl* onFd(int fd) { for (auto& x : ssls) if (!x->frees && x->fd == fd) return x.get(); return nullptr; }
inline size_t live() { size_t n = 0; for (auto& x : ssls) n += !x->frees; return n; }
inline void unref(Ctx& c) { if (--c.refs == 0) c.freed = true; }
inline void push(unsigned long e) { if (queue.size() < 16) queue.push_back(e); }
// gives an operation the result `k`; `n` bytes for Done
inline int outcome(Ssl& s, Kind k, int n, unsigned long err, int failRet = -1) {
    s.want = SSL_NOTHING;
    switch (k) {
        case Kind::Done: return n;
        case Kind::WantRead: s.want = SSL_READING; return -1;
        case Kind::WantWrite: s.want = SSL_WRITING; return -1;
        case Kind::Zero: s.zero = true; return 0;
        case Kind::Error: push(err); return failRet;
        case Kind::Eof: push(pack(ERR_LIB_SSL, SSL_R_UNEXPECTED_EOF_WHILE_READING)); return 0;
        case Kind::Syscall: errno = sysErrno; return failRet;
        case Kind::SysQueued: push((unsigned long)ECONNRESET | ERR_SYSTEM_FLAG); errno = ECONNRESET; return failRet;
    }
    return -1;
}
// takes bytes off the wire until `need` are there: 1 done, otherwise the operation's result
inline int gather(Ssl& s, size_t need, int& r) {
    while (s.raw.size() < need) {
        uint8_t b[1024]; size_t k = need - s.raw.size();
        long n = net::doRead(s.fd, b, k < sizeof b ? k : sizeof b);
        if (n < 0) { r = errno == EAGAIN ? outcome(s, Kind::WantRead, 0, 0) : outcome(s, Kind::Syscall, 0, 0); return 0; }
        if (n == 0) { r = outcome(s, Kind::Eof, 0, 0); return 0; }
        s.raw.insert(s.raw.end(), b, b + n);
    }
    return 1;
}
inline int put(Ssl& s, int& r) {      // sealed bytes onto the wire
    while (s.sealedAt < s.sealed.size()) {
        long x = net::doWrite(s.fd, s.sealed.data() + s.sealedAt, s.sealed.size() - s.sealedAt);
        if (x < 0) { r = errno == EAGAIN ? outcome(s, Kind::WantWrite, 0, 0) : outcome(s, Kind::Syscall, 0, 0); return 0; }
        s.sealedAt += (size_t)x;
    }
    s.sealed.clear(); s.sealedAt = 0;
    return 1;
}
inline int doAccept(Ssl& s) {
    int r;
    queue.clear();
    if (script && script(s, Op::Accept, nullptr, 0, r)) { if (r == 1) s.hello = true; return r; }
    if (s.hello) return 1;
    if (records) {
        if (s.flight == 0) {
            if (!gather(s, 5, r)) return r;
            if (s.raw[0] != 'C') return outcome(s, Kind::Error, 0, pack(ERR_LIB_SSL, SSL_R_WRONG_VERSION_NUMBER));
            s.raw.clear(); s.sealed.assign(kFlight, 'S'); s.flight = 1;
        }
        if (s.flight == 1) { if (!put(s, r)) return r; s.flight = 2; }
        if (!gather(s, 5, r)) return r;
        if (s.raw[0] != 'F') return outcome(s, Kind::Error, 0, pack(ERR_LIB_SSL, SSL_R_DIGEST_CHECK_FAILED));
        s.raw.clear(); s.want = SSL_NOTHING; s.hello = true;
        return 1;
    }
    char c; long n = net::doRead(s.fd, &c, 1);
    if (n < 0) { if (errno == EAGAIN) { s.want = SSL_READING; return -1; } return outcome(s, Kind::Syscall, 0, 0); }
    if (n == 0) return outcome(s, Kind::Eof, 0, 0);
    if (c != 'H') { push(pack(ERR_LIB_SSL, SSL_R_WRONG_VERSION_NUMBER)); return outcome(s, Kind::Error, 0, pack(ERR_LIB_SSL, SSL_R_HTTP_REQUEST)); }
    s.want = SSL_NOTHING; s.hello = true;
    return 1;
}
inline int doRead(Ssl& s, void* b, int n) {
    int r;
    if (script && script(s, Op::Read, b, (size_t)n, r)) return r;
    if (n <= 0) return outcome(s, Kind::Syscall, 0, 0, 0);
    if (!s.hello) return doAccept(s) == 1 ? doRead(s, b, n) : -1;
    if (records) {
        while (s.plainPos == s.plain.size()) {
            if (s.zero) return outcome(s, Kind::Zero, 0, 0);
            if (!gather(s, 3, r)) return r;
            size_t len = (size_t)s.raw[1] << 8 | s.raw[2];
            if (!gather(s, 3 + len, r)) return r;
            uint8_t t = s.raw[0];
            if (t == 'R') { s.plain.assign(s.raw.begin() + 3, s.raw.end()); s.plainPos = 0; }
            s.raw.clear();
            if (t == 'A') return outcome(s, Kind::Zero, 0, 0);
            if (t != 'R' && t != 'K') return outcome(s, Kind::Error, 0, pack(ERR_LIB_SSL, SSL_R_DIGEST_CHECK_FAILED));
        }
        size_t k = s.plain.size() - s.plainPos;
        if (k > (size_t)n) k = (size_t)n;
        memcpy(b, s.plain.data() + s.plainPos, k);
        s.plainPos += k;
        return outcome(s, Kind::Done, (int)k, 0);
    }
    net::Sock* k = net::at(s.fd);
    if (k && k->pos == k->in.size() && k->eof) return outcome(s, k->err ? Kind::Eof : Kind::Zero, 0, 0);
    long x = net::doRead(s.fd, b, (size_t)n);
    if (x < 0) return errno == EAGAIN ? outcome(s, Kind::WantRead, 0, 0) : outcome(s, Kind::Syscall, 0, 0);
    if (x == 0) return outcome(s, Kind::Zero, 0, 0);
    return outcome(s, Kind::Done, (int)x, 0);
}
inline int doWrite(Ssl& s, const void* b, int n) {
    int r;
    if (n < 0) return outcome(s, Kind::Error, 0, pack(ERR_LIB_SSL, SSL_R_BAD_LENGTH));
    if (s.pend && (s.pendLen > (size_t)n || (s.pend != b && !(s.mode & SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER))))
        return outcome(s, Kind::Error, 0, pack(ERR_LIB_SSL, SSL_R_BAD_WRITE_RETRY));
    if (script && script(s, Op::Write, (void*)b, (size_t)n, r)) {
        s.pend = r <= 0 && (s.want == SSL_READING || s.want == SSL_WRITING) ? b : nullptr;
        s.pendLen = (size_t)n;
        return r;
    }
    if (!s.hello) { int a = doAccept(s); if (a != 1) return a; }
    size_t done = s.pend ? s.pendDone : 0;
    if (records) {      // record by record; a record made is sent before the next one
        if (n == 0) return outcome(s, Kind::Error, 0, pack(ERR_LIB_SSL, SSL_R_BAD_LENGTH), 0);
        for (;;) {
            if (!put(s, r)) { bool blocked = s.want == SSL_WRITING; s.pend = blocked ? b : nullptr; s.pendLen = (size_t)n; s.pendDone = done; return r; }
            done += s.sealedLen; s.sealedLen = 0;
            if (done == (size_t)n || (done && (s.mode & SSL_MODE_ENABLE_PARTIAL_WRITE))) { s.pend = nullptr; return outcome(s, Kind::Done, (int)done, 0); }
            size_t k = (size_t)n - done; if (k > kRecord) k = kRecord;
            s.sealed = {'R', (uint8_t)(k >> 8), (uint8_t)k};
            s.sealed.insert(s.sealed.end(), (const uint8_t*)b + done, (const uint8_t*)b + done + k);
            s.sealedAt = 0; s.sealedLen = k;
        }
    }
    while (done < (size_t)n) {
        long x = net::doWrite(s.fd, (const char*)b + done, (size_t)n - done);
        if (x < 0) {
            if (errno != EAGAIN) { s.pend = nullptr; return outcome(s, Kind::Syscall, 0, 0); }
            s.pend = b; s.pendLen = (size_t)n; s.pendDone = done;
            return outcome(s, Kind::WantWrite, 0, 0);
        }
        done += (size_t)x;
    }
    s.pend = nullptr;
    return outcome(s, Kind::Done, n, 0);
}
}  // namespace tls
extern "C" {
unsigned long ion_model_ERR_get_error() { if (tls::queue.empty()) return 0; auto e = tls::queue.front(); tls::queue.erase(tls::queue.begin()); return e; }
unsigned long ion_model_ERR_peek_error() { return tls::queue.empty() ? 0 : tls::queue.front(); }
unsigned long ion_model_ERR_peek_last_error() { return tls::queue.empty() ? 0 : tls::queue.back(); }
unsigned long ion_model_ERR_get_error_all(const char** f, int* l, const char** fn, const char** d, int* fl) { static const char* e = ""; if (f) *f = e; if (l) *l = 0; if (fn) *fn = e; if (d) *d = e; if (fl) *fl = 0; return ion_model_ERR_get_error(); }
void ion_model_ERR_clear_error() { tls::queue.clear(); }
void ion_model_ERR_error_string_n(unsigned long, char* b, size_t n) { if (n) { size_t k = n < 5 ? n - 1 : 4; memcpy(b, "fail", k); b[k] = 0; } }
char* ion_model_ERR_error_string(unsigned long, char* b) { static char st[8]; if (!b) b = st; memcpy(b, "fail", 5); return b; }
const char* ion_model_ERR_reason_error_string(unsigned long) { return "fail"; }
const char* ion_model_ERR_lib_error_string(unsigned long) { return "lib"; }
void ion_model_ERR_print_errors_fp(FILE*) { tls::queue.clear(); }
int ion_model_ERR_set_mark() { return 1; }
const SSL_METHOD* ion_model_TLS_server_method() { return (const SSL_METHOD*)&tls::ctxs; }
const SSL_METHOD* ion_model_TLS_method() { return (const SSL_METHOD*)&tls::ctxs; }
SSL_CTX* ion_model_SSL_CTX_new(const SSL_METHOD*) { if (tls::ctxFails) { tls::push(tls::pack(ERR_LIB_SSL, 1)); return nullptr; } tls::ctxs.push_back(std::make_unique<tls::Ctx>()); return (SSL_CTX*)tls::ctxs.back().get(); }
void ion_model_SSL_CTX_free(SSL_CTX* c) { if (c) tls::unref(tls::of(c)); }
int ion_model_SSL_CTX_up_ref(SSL_CTX* c) { ++tls::of(c).refs; return 1; }
int ion_model_SSL_CTX_use_certificate_file(SSL_CTX* c, const char* p, int) { if (tls::certFails) { tls::push(tls::pack(ERR_LIB_PEM, 9)); return 0; } tls::of(c).cert = true; tls::of(c).certPath = p; return 1; }
int ion_model_SSL_CTX_use_certificate_chain_file(SSL_CTX* c, const char* p) { if (tls::certFails) { tls::push(tls::pack(ERR_LIB_PEM, 9)); return 0; } tls::of(c).cert = true; tls::of(c).certPath = p; return 1; }
int ion_model_SSL_CTX_use_PrivateKey_file(SSL_CTX* c, const char* p, int) { if (tls::keyFails) { tls::push(tls::pack(ERR_LIB_PEM, 9)); return 0; } tls::of(c).key = true; tls::of(c).keyPath = p; return 1; }
int ion_model_SSL_CTX_check_private_key(const SSL_CTX* c) { auto& x = tls::of(c); if (!x.cert || !x.key || tls::mismatch) { tls::push(tls::pack(ERR_LIB_X509, 116)); return 0; } return 1; }
void ion_model_SSL_CTX_set_alpn_select_cb(SSL_CTX* c, SSL_CTX_alpn_select_cb_func f, void* a) { auto& x = tls::of(c); x.alpn = f; x.alpnArg = a; }
void ion_model_SSL_CTX_set_keylog_callback(SSL_CTX* c, SSL_CTX_keylog_cb_func f) { tls::of(c).keylog = f; }
long ion_model_SSL_CTX_ctrl(SSL_CTX* c, int cmd, long v, void*) { auto& x = tls::of(c); if (cmd == SSL_CTRL_MODE) return (long)(x.mode |= (unsigned long)v); if (cmd == SSL_CTRL_CLEAR_MODE) return (long)(x.mode &= ~(unsigned long)v); return 1; }
uint64_t ion_model_SSL_CTX_set_options(SSL_CTX* c, uint64_t o) { tls::of(c); return o; }
uint64_t ion_model_SSL_set_options(SSL* s, uint64_t o) { tls::of(s); return o; }
int ion_model_SSL_CTX_set_cipher_list(SSL_CTX* c, const char*) { tls::of(c); return 1; }
void ion_model_SSL_CTX_set_verify(SSL_CTX* c, int, SSL_verify_cb) { tls::of(c); }
SSL* ion_model_SSL_new(SSL_CTX* c) {
    auto& x = tls::of(c);
    if (tls::newCalls++ == tls::newFailAt) { tls::push(tls::pack(ERR_LIB_SSL, ERR_R_MALLOC_FAILURE)); return nullptr; }
    tls::ssls.push_back(std::make_unique<tls::Ssl>());
    auto* s = tls::ssls.back().get(); s->ctx = &x; s->mode = x.mode; ++x.refs;
    return (SSL*)s;
}
void ion_model_SSL_free(SSL* p) {
    if (!p) return;
    for (auto& x : tls::ssls) if ((void*)x.get() == (void*)p) { if (x->frees) sym_fail("a TLS session is freed twice"); if (tls::onFree) tls::onFree(*x); ++x->frees; tls::unref(*x->ctx); return; }
    sym_fail("something that is not a TLS session is freed");
}
int ion_model_SSL_set_fd(SSL* p, int fd) { auto& s = tls::of(p); if (tls::setFdCalls++ == tls::setFdFailAt) { tls::push(tls::pack(ERR_LIB_SSL, ERR_R_BUF_LIB)); return 0; } s.fd = fd; return 1; }
int ion_model_SSL_get_fd(const SSL* p) { return tls::of(p).fd; }
void ion_model_SSL_set_accept_state(SSL* p) { tls::of(p); }
int ion_model_SSL_is_init_finished(const SSL* p) { return tls::of(p).hello; }
int ion_model_SSL_want(const SSL* p) { return tls::of(p).want; }
long ion_model_SSL_ctrl(SSL* p, int cmd, long v, void*) { auto& s = tls::of(p); if (cmd == SSL_CTRL_MODE) return (long)(s.mode |= (unsigned long)v); if (cmd == SSL_CTRL_CLEAR_MODE) return (long)(s.mode &= ~(unsigned long)v); return 1; }
int ion_model_SSL_pending(const SSL* p) { auto& s = tls::of(p); return (int)(s.plain.size() - s.plainPos); }
int ion_model_SSL_has_pending(const SSL* p) { auto& s = tls::of(p); return s.plain.size() > s.plainPos || !s.raw.empty(); }
BIO* ion_model_SSL_get_wbio(const SSL* p) { return (BIO*)&tls::of(p).fd; }
BIO* ion_model_SSL_get_rbio(const SSL* p) { return (BIO*)&tls::of(p).fd; }
long ion_model_BIO_ctrl(BIO* b, int, long, void*) { if (!b) sym_fail("a null BIO is used"); return 1; }
int ion_model_SSL_accept(SSL* p) { auto& s = tls::of(p); ++s.ops; return tls::doAccept(s); }
int ion_model_SSL_do_handshake(SSL* p) { auto& s = tls::of(p); ++s.ops; return tls::doAccept(s); }
int ion_model_SSL_read(SSL* p, void* b, int n) { auto& s = tls::of(p); ++s.ops; return tls::doRead(s, b, n); }
int ion_model_SSL_write(SSL* p, const void* b, int n) { auto& s = tls::of(p); ++s.ops; return tls::doWrite(s, b, n); }
int ion_model_SSL_read_ex(SSL* p, void* b, size_t n, size_t* k) { auto& s = tls::of(p); ++s.ops; int r = tls::doRead(s, b, (int)n); if (r > 0) { *k = (size_t)r; return 1; } return 0; }
int ion_model_SSL_write_ex(SSL* p, const void* b, size_t n, size_t* k) { auto& s = tls::of(p); ++s.ops; int r = tls::doWrite(s, b, (int)n); if (r > 0) { *k = (size_t)r; return 1; } return 0; }
int ion_model_SSL_shutdown(SSL* p) {
    auto& s = tls::of(p); ++s.ops; ++s.shutdowns;
    int r;
    if (tls::script && tls::script(s, tls::Op::Shutdown, nullptr, 0, r)) return r;
    if (!s.hello) { tls::push(tls::pack(ERR_LIB_SSL, SSL_R_UNINITIALIZED)); return -1; }
    if (tls::records && s.shutdowns == 1 && s.sealed.empty()) { s.sealed = {'A', 0, 0}; s.sealedAt = 0; s.sealedLen = 0; if (!tls::put(s, r)) return r; }
    return s.zero ? 1 : 0;
}
int ion_model_SSL_get_shutdown(const SSL* p) { auto& s = tls::of(p); return (s.zero ? SSL_RECEIVED_SHUTDOWN : 0) | (s.shutdowns ? SSL_SENT_SHUTDOWN : 0); }
int ion_model_SSL_get_error(const SSL* p, int r) {
    auto& s = tls::of(p);
    if (r > 0) return SSL_ERROR_NONE;
    if (!tls::queue.empty()) return ERR_GET_LIB(tls::queue.front()) == ERR_LIB_SYS ? SSL_ERROR_SYSCALL : SSL_ERROR_SSL;
    if (s.want == SSL_READING) return SSL_ERROR_WANT_READ;
    if (s.want == SSL_WRITING) return SSL_ERROR_WANT_WRITE;
    if (s.zero) return SSL_ERROR_ZERO_RETURN;
    return SSL_ERROR_SYSCALL;
}
// picks the first server protocol that the client offers; reads only the two lists
int ion_model_SSL_select_next_proto(unsigned char** out, unsigned char* outlen, const unsigned char* server, unsigned sl, const unsigned char* client, unsigned cl) {
    for (unsigned i = 0; i < sl; i += server[i] + 1u)
        for (unsigned j = 0; j < cl; j += client[j] + 1u) {
            if (server[i] != client[j] || i + 1 + server[i] > sl || j + 1 + client[j] > cl) continue;
            bool eq = true;
            for (unsigned k = 1; eq && k <= server[i]; ++k) eq = server[i + k] == client[j + k];
            if (eq) { *out = (unsigned char*)&server[i + 1]; *outlen = server[i]; return OPENSSL_NPN_NEGOTIATED; }
        }
    if (cl) { *out = (unsigned char*)client + 1; *outlen = client[0]; } else { *out = nullptr; *outlen = 0; }   // OpenSSL: the client's first protocol
    return OPENSSL_NPN_NO_OVERLAP;
}
}
