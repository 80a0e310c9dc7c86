// The program's main() in its environment: command line, environment variables, signals, process control.
#pragma once
#include "server.h"
#include <csignal>
#include <cstdlib>
#include <map>
#include <sys/prctl.h>
#define main ion_main
#include "main.cpp"
#undef main
namespace appenv {
inline std::map<std::string, std::string> vars;
using Handler = void (*)(int);
inline std::map<int, Handler> handlers;
inline std::function<void()> onStart;
inline bool noNewPrivs = false;
inline int telemetries = 0;
// runs main() until it ends; the story (srv::steps) is played while it waits, then SIGTERM comes
inline int runMain(const std::vector<std::string>& args, size_t limit = 300) {
    std::vector<std::string> copy = args;
    std::vector<char*> argv;
    for (auto& s : copy) argv.push_back(s.data());
    argv.push_back(nullptr);
    size_t w0 = net::waits;
    bool first = true;
    net::world = [w0, limit, &first] {
        if (first) { first = false; if (onStart) onStart(); }
        if (net::waits - w0 > limit) sym_fail("the server is still running long after the last event");
        if (srv::settle < srv::settleMax && !(srv::settle > 0 && srv::quiet())) { ++srv::settle; return 0; }
        srv::settle = 0;
        if (srv::next < srv::steps.size()) { srv::steps[srv::next++](); return 0; }
        if (!srv::finished) { srv::finished = true; if (!handlers.count(SIGTERM) || handlers[SIGTERM] == SIG_DFL) sym_fail("a signal kills the server"); handlers[SIGTERM](SIGTERM); }
        return 0;
    };
    try { return ion_main((int)args.size(), argv.data()); }
    catch (...) { sym_fail("an exception leaves main()"); }
    return -1;
}
}  // namespace appenv
#ifdef ION_REAL_TELEMETRY
#include "telemetry.cpp"
#include "trace_id_flag.cpp"
#else
namespace ion::app {
Telemetry::Telemetry(const std::string&) { ++appenv::telemetries; }
Telemetry::~Telemetry() { --appenv::telemetries; }
void TraceIdFlag::format(const spdlog::details::log_msg&, const std::tm&, spdlog::memory_buf_t&) {}
std::unique_ptr<spdlog::custom_flag_formatter> TraceIdFlag::clone() const { return std::make_unique<TraceIdFlag>(); }
}
#endif
extern "C" {
char* ion_model_getenv(const char* n) { auto i = appenv::vars.find(n); return i == appenv::vars.end() ? nullptr : i->second.data(); }
char* ion_model_secure_getenv(const char* n) { return ion_model_getenv(n); }
appenv::Handler ion_model_signal(int sig, appenv::Handler h) { auto old = appenv::handlers.count(sig) ? appenv::handlers[sig] : SIG_DFL; appenv::handlers[sig] = h; return old; }
int ion_model_sigaction(int sig, const struct sigaction* a, struct sigaction* o) { if (o) memset(o, 0, sizeof *o); if (a) appenv::handlers[sig] = a->sa_handler; return 0; }
int ion_model_prctl(int op, ...) { if (op == PR_SET_NO_NEW_PRIVS) { appenv::noNewPrivs = true; return 0; } if (op == PR_GET_NO_NEW_PRIVS) return appenv::noNewPrivs; return -1; }
}
