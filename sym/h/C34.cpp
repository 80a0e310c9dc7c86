//@ cases-quick: [(f"list_{n}", [0,n]) for n in range(2, 25)] + [(f"name_{p}_{l}", [1,p,l]) for p in (0,1,3,10) for l in (1,2,3,8,100)] + [("name_100_8",[1,100,8]),("name_0_255",[1,0,255]),("name_5000_2",[1,5000,2])] + [("session",[2,0])]
//@ cases-thorough: [(f"list_{n}", [0,n]) for n in range(2, 49)] + [(f"name_{p}_{l}", [1,p,l]) for p in range(0,40) for l in (1,2,3,8,100,255)] + [(f"name_{n}_8",[1,n,8]) for n in (90,100,5000,21000)] + [("session",[2,0])]
//@ bounds: every well-formed protocol list of 2 to 24 (thorough: 48) bytes, all bytes symbolic, and lists with up to 10 (thorough: 39) names (and 100 and 5000) followed by one of up to 255 bytes; callback context and previous contents of the results arbitrary
//@ outside: lists that are not well formed, which the TLS library refuses before it asks
//@ assumptions: SSL_select_next_proto follows OpenSSL 3 (first server protocol that the client offers; otherwise the client's first one)
//@ reach: asked
//@ sources: lib/transports/tls_context lib/transports/tls_transport lib/socket_fd
// C34: protocol negotiation always settles on h2, within the offered bytes.
#include "../env/tls.h"
#include "transports/tls_context.h"
#include "transports/tls_transport.h"
#include <sys/stat.h>
extern "C" {
int ion_model_stat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_lstat(const char*, struct stat* s) { memset(s, 0, sizeof *s); s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_access(const char*, int) { return 0; }
}
using namespace ion;
static void ask(TlsContext& c, const uint8_t* list, size_t n) {
    tls::Ctx& x = *tls::ctxs.back();
    sym_assert(x.alpn != nullptr, "the server takes part in protocol negotiation");
    SSL* s = c.create_ssl();
    // exactly the offered bytes are readable
    std::unique_ptr<uint8_t[]> in(new uint8_t[n]);
    memcpy(in.get(), list, n);
    std::unique_ptr<uint8_t[]> copy(new uint8_t[n]);
    memcpy(copy.get(), list, n);
    const unsigned char* out = nullptr;
    unsigned char len = sym_val<uint8_t>("old");
    if (sym_bool("old_out")) out = in.get();
    int r = x.alpn(s, &out, &len, in.get(), (unsigned)n, x.alpnArg);
    sym_assert(r == SSL_TLSEXT_ERR_OK, "negotiation never fails the handshake");
    sym_assert(len == 2, "the protocol chosen is two bytes long");
    sym_assert(out != nullptr, "a protocol is chosen");
    unsigned bad = (out[0] != 'h') | (out[1] != '2');
    sym_assert(!bad, "the protocol chosen is h2");
    unsigned changed = 0;
    for (size_t i = 0; i < n; ++i) changed |= in[i] != copy[i];
    sym_assert(!changed, "the client's list is left alone");
    sym_reach("asked");
    SSL_free(s);
}
int harness_main() {
    int mode = (int)sym_param(0);
    TlsContext c("/c", "/k");
    if (mode == 2) {
        // negotiation is set up on every session of every context
        TlsContext d("/c", "/k");
        for (auto& x : tls::ctxs) sym_assert(x->alpn != nullptr, "the server takes part in protocol negotiation");
        uint8_t b[9] = {8, 'h', 't', 't', 'p', '/', '1', '.', '1'};
        for (int i = 0; i < 3; ++i) ask(d, b, 9);
        return 0;
    }
    if (mode == 0) {
        size_t n = (size_t)sym_param(1);
        std::vector<uint8_t> b(n);
        sym_make(b.data(), n, "list");
        // well formed: names of at least one byte that end exactly at the end
        for (size_t i = 0; i < n;) {
            uint8_t l = b[i];
            sym_assume(l >= 1 && i + 1 + l <= n);
            size_t k = (size_t)sym_concretize(l);
            i += 1 + k;
        }
        ask(c, b.data(), n);
    } else {
        size_t names = (size_t)sym_param(1), len = (size_t)sym_param(2);
        std::vector<uint8_t> b;
        for (size_t i = 0; i < names; ++i) { b.push_back(2); b.push_back('h'); b.push_back(i < 20 || i + 3 > names ? sym_val<uint8_t>("v") : (uint8_t)'x'); if (i + 1 == names) b[b.size() - 1] = '3'; else sym_assume(b.back() != '2' || i > 1); }
        b.push_back((uint8_t)len);
        size_t at = b.size();
        b.resize(at + len, 'q');
        sym_make(b.data() + at, len < 3 ? len : 3, "name");
        ask(c, b.data(), b.size());
    }
    return 0;
}
