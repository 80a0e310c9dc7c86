//@ cases-quick: [("validate",[0,0]),("server",[1,0])] + [(f"map_{c}_{k}", [2,c,k]) for c in range(3) for k in range(3)] + [(f"line_{c}_{k}", [3,c,k]) for c in range(5) for k in range(5)] + [(f"main_{c}_{k}_{t}", [4,c,k,t]) for c in range(3) for k in range(3) for t in range(2)] + [("badfiles",[5,0])]
//@ cases-thorough: [("validate",[0,0]),("server",[1,0])] + [(f"map_{c}_{k}", [2,c,k]) for c in range(5) for k in range(5)] + [(f"line_{c}_{k}", [3,c,k]) for c in range(5) for k in range(5)] + [(f"main_{c}_{k}_{t}", [4,c,k,t]) for c in range(5) for k in range(5) for t in range(2)] + [("badfiles",[5,0])]
//@ bounds: every combination of certificate, key and cleartext being given or not, by option, by environment variable or both, with arbitrary path bytes (up to two, thorough four; three on the command line); the configuration checked directly, through a server object, and through the program's main() up to listening and handling a client; any of the TLS library's refusals of the files
//@ outside: whether the files fit (the TLS library decides that); paths that are given but empty count as not given on the command line
//@ assumptions: CLI11 behaves as sym/include/CLI/App.hpp, which agrees with the installed CLI11 on the command lines in tools/clidiff
//@ reach: refused started
//@ sources: app/(args|signal_handler|proc_ctrl|server_stats|status_page|test_routes) lib/
// C32: a TLS server never starts without certificate and key.
#include "../env/server.h"
#include "../env/tls.h"
#include "../env/wallclock.h"
#include "../env/app.h"
#include <sys/stat.h>
using namespace srv;
static const char* missing = nullptr;      // the one file that is not there
extern "C" {
int ion_model_stat(const char* p, struct stat* s) { memset(s, 0, sizeof *s); if (missing && strcmp(p, missing) == 0) { errno = ENOENT; return -1; } s->st_mode = S_IFREG | 0644; return 0; }
int ion_model_lstat(const char* p, struct stat* s) { return ion_model_stat(p, s); }
int ion_model_access(const char* p, int) { struct stat s; return ion_model_stat(p, &s); }
}
static ServerConfiguration config(bool cert, bool key, bool clear, const std::string& c, const std::string& k) {
    ServerConfiguration g{};
    g.cleartext = clear;
    if (cert) g.cert_path = c;
    if (key) g.key_path = k;
    return g;
}
static std::string text(size_t n, const char* what) { std::string s(n, 'x'); if (n) sym_make(s.data(), n, what); for (char c : s) sym_assume(c != 0); return s; }
static void asGiven(const std::optional<std::filesystem::path>& p, bool given, const std::string& v, const char* what) {
    sym_assert(p.has_value() == given, what);
    if (given && p) sym_assert(p->native() == v, "the path is the one that was given");
}
int harness_main() {
    int mode = (int)sym_param(0);
    if (mode == 0) {
        bool cert = sym_bool("cert given"), key = sym_bool("key given"), clear = sym_bool("cleartext");
        auto g = config(cert, key, clear, text(2, "cert"), text(3, "key"));
        bool ok = true;
        try { g.validate(); } catch (const std::exception&) { ok = false; }
        sym_assert(ok == (clear || (cert && key)), "a TLS configuration is valid exactly with certificate and key, a cleartext one always");
        sym_reach(ok ? "started" : "refused");
    } else if (mode == 1) {
        bool cert = sym_bool("cert given"), key = sym_bool("key given"), clear = sym_bool("cleartext");
        std::string c = text(2, "cert"), k = text(3, "key");
        bool ok = true;
        try {
            Http2Server s(config(cert, key, clear, c, k));
            s.router().add_route("/", "GET", [](const HttpRequest&) { return HttpResponse{200, {'o', 'k'}}; });
            net::Sock* p = nullptr;
            steps.push_back([&] { p = net::client(); if (!clear) p->in = {'H'}; add(p->in, hello()); add(p->in, env::request(1, "/")); });
            run(s);
            sym_assert(p->out.size() > 20, "the server serves");
            if (!clear) {
                sym_assert(tls::ctxs.size() == 1 && tls::ctxs[0]->certPath == c && tls::ctxs[0]->keyPath == k, "the files are those configured");
                sym_assert(tls::ssls.size() == 1, "a TLS server speaks TLS");
            } else sym_assert(tls::ssls.empty(), "a cleartext server does not speak TLS");
        } catch (const std::exception&) { ok = false; }
        sym_assert(ok == (clear || (cert && key)), "a TLS server starts exactly with certificate and key, a cleartext one always");
        if (!ok) sym_assert(net::calls == 0, "a server that refuses to start touches nothing");
        sym_reach(ok ? "started" : "refused");
    } else if (mode == 2) {
        Args a{};
        a.cert_path = text((size_t)sym_param(1), "cert");
        a.key_path = text((size_t)sym_param(2), "key");
        a.cleartext = sym_bool("cleartext");
        auto g = a.to_server_config();
        asGiven(g.cert_path, !a.cert_path.empty(), a.cert_path, "the certificate path is set exactly if it was given");
        asGiven(g.key_path, !a.key_path.empty(), a.key_path, "the key path is set exactly if it was given");
        sym_assert(g.cleartext == a.cleartext, "cleartext is as given");
        bool ok = true;
        try { g.validate(); } catch (const std::exception&) { ok = false; }
        sym_assert(ok == (a.cleartext || (!a.cert_path.empty() && !a.key_path.empty())), "the configuration is valid exactly when it is complete");
        sym_reach(ok ? "started" : "refused");
    } else if (mode == 3 || mode == 4) {
        // 0: not given; 1: --x v; 2: --x=v; 3: environment; 4: option and environment
        int c = (int)sym_param(1), k = (int)sym_param(2);
        std::string cv = text(3, "cert"), kv = text(3, "key");
        bool clear = mode == 4 ? sym_param(3) : sym_bool("cleartext"), back = mode == 4 ? false : sym_bool("order");
        std::vector<std::string> a{"ion-server"};
        auto put = [&](int how, const char* opt, const char* env, const std::string& v) {
            if (how == 1 || how == 4) { a.push_back(opt); a.push_back(v); }
            if (how == 2) a.push_back(std::string(opt) + "=" + v);
            if (how == 3) appenv::vars[env] = v;
            if (how == 4) appenv::vars[env] = "other";
        };
        if (clear && !back) a.push_back("--cleartext");
        if (back) put(k, "--tls-key-path", "ION_TLS_KEY_PATH", kv);
        put(c, "--tls-cert-path", "ION_TLS_CERT_PATH", cv);
        if (!back) put(k, "--tls-key-path", "ION_TLS_KEY_PATH", kv);
        if (clear && back) a.push_back("--cleartext");
        bool want = clear || (c && k);
        if (mode == 3) {
            CLI::App app{"ion"};
            auto args = Args::register_opts(app);
            std::vector<const char*> argv;
            for (auto& x : a) argv.push_back(x.c_str());
            app.parse((int)argv.size(), argv.data());
            auto g = args.to_server_config();
            asGiven(g.cert_path, c != 0, cv, "the certificate path is set exactly if it was given");
            asGiven(g.key_path, k != 0, kv, "the key path is set exactly if it was given");
            sym_assert(g.cleartext == clear, "cleartext is as given");
            bool ok = true;
            try { g.validate(); } catch (const std::exception&) { ok = false; }
            sym_assert(ok == want, "the configuration is valid exactly when it is complete");
            sym_reach(ok ? "started" : "refused");
            return 0;
        }
        a.push_back("--under-test");
        net::Sock* p = nullptr;
        bool listened = false;
        appenv::onStart = [&] { listened = true; };
        steps.push_back([&] { p = net::client(); if (!clear) p->in = {'H'}; add(p->in, hello()); add(p->in, env::request(1, "/_tests/ok")); });
        int rc = appenv::runMain(a);
        sym_assert(listened == want, "the program listens exactly when its configuration is complete");
        if (want) {
            sym_assert(rc == 0, "it ends well when it is told to");
            sym_assert(p && p->out.size() > 20, "it serves");
            sym_assert(tls::ssls.size() == (clear ? 0u : 1u), "it speaks TLS unless it is told not to");
            if (!clear) sym_assert(tls::ctxs.size() == 1 && tls::ctxs[0]->certPath == cv && tls::ctxs[0]->keyPath == kv, "the files are those given");
        } else { sym_assert(rc != 0, "it reports that it cannot start"); sym_assert(net::ports.empty(), "it opens no port"); }
        sym_reach(want ? "started" : "refused");
    } else {
        uint8_t k = sym_val<uint8_t>("failure"); sym_assume(k < 7);
        tls::ctxFails = k == 0; tls::certFails = k == 1; tls::keyFails = k == 2; tls::mismatch = k == 3;
        missing = k == 5 ? "/c" : k == 6 ? "/k" : nullptr;
        bool ok = true;
        try { Http2Server s(config(true, true, false, "/c", "/k")); } catch (const std::exception&) { ok = false; }
        sym_assert(ok == (k == 4), "a server whose certificate or key the TLS library refuses does not start");
        sym_assert(net::calls == 0, "a server that refuses to start touches nothing");
        for (auto& c : tls::ctxs) sym_assert(c->freed, "the TLS context is released");
        sym_reach(ok ? "started" : "refused");
    }
    return 0;
}
