PROPERTY = 'C34'
NEEDS = 'a client whose protocol list is longer than 255 bytes'
BREAKS = 'its handshake is refused'
EDITS = [('lib/transports/tls_context.cpp', 'const int result =', '''if (inlen > 255) {
        return SSL_TLSEXT_ERR_ALERT_FATAL;
    }
    const int result =''')]
SOURCES = SERVER
DEMO = r'''#include "conn_kit.h"
#include <filesystem>
#include <openssl/ssl.h>
#include "transports/tls_context.h"
int main() {
    spdlog::set_level(spdlog::level::off);
    CHECK(std::system("openssl req -x509 -newkey rsa:2048 -nodes -keyout key.pem -out cert.pem -days 2 -subj /CN=x >/dev/null 2>&1") == 0);
    ion::TlsContext ctx("cert.pem", "key.pem");
    for (int extra : {0, 40}) {
        SSL* s = ctx.create_ssl();
        SSL_CTX* cc = SSL_CTX_new(TLS_client_method());
        SSL* c = SSL_new(cc);
        Bytes l;
        for (int i = 0; i < extra; ++i) { l.push_back(8); for (char ch : std::string("proto-") + (char)('a' + i / 10) + (char)('a' + i % 10)) l.push_back((uint8_t)ch); }
        l.push_back(2); l.push_back('h'); l.push_back('2');
        SSL_set_alpn_protos(c, l.data(), (unsigned)l.size());
        BIO *a, *b;
        BIO_new_bio_pair(&a, 1 << 20, &b, 1 << 20);
        SSL_set_bio(s, a, a); SSL_set_bio(c, b, b);
        SSL_set_accept_state(s); SSL_set_connect_state(c);
        for (int i = 0; i < 10; ++i) { SSL_do_handshake(c); SSL_do_handshake(s); }
        const unsigned char* p; unsigned n;
        SSL_get0_alpn_selected(c, &p, &n);
        CHECK(SSL_is_init_finished(c) && SSL_is_init_finished(s));
        CHECK(n == 2 && p[0] == 'h' && p[1] == '2');
        SSL_free(s); SSL_free(c); SSL_CTX_free(cc);
    }
}
'''
