//@ py: K = ["ok","status","throws","throws_any","none","nopath","nomethod","malformed","oversize","query"]
//@ cases-quick: [(f"one_{K[k]}_{n}", [0,k,n]) for k in range(10) for n in ((0,2) if k < 2 else (1,))] + [("one_ok_4",[0,0,4]),("one_nopath_4",[0,5,4])] + [("two",[1,2]),("three",[1,3]),("quiet",[2,0])] + [(f"main{n}", [3,n]) for n in (0,1,3,4,5)] + [("unset",[3,99]),("noreq",[4,0]),("connections",[5,0])]
//@ cases-thorough: [(f"one_{K[k]}_{n}", [0,k,n]) for k in range(10) for n in range(5)] + [("two",[1,2]),("three",[1,3]),("four",[1,4]),("quiet",[2,0])] + [(f"main{n}", [3,n]) for n in range(7)] + [("unset",[3,99]),("noreq",[4,0]),("connections",[5,0])]
//@ bounds: requests of ten kinds (served, with any status, failing in two ways, unknown, incomplete, malformed) with methods, paths and client addresses of up to two (and four; thorough four) arbitrary bytes, sequences of up to three (thorough four) of them in every combination, on one and on two connections; OTEL_SDK_DISABLED unset or set to any text of up to five (thorough six) bytes; every diagnostic message logged
//@ outside: what the OpenTelemetry SDK does with a span (the library is not installed here); errors of the collector
//@ assumptions: the SDK behaves as sym/include/opentelemetry describes: a span ends when ended or when its last owner goes, a span started while another is active belongs to that one's trace
//@ reach: traced off logged
//@ sources: app/(args|signal_handler|proc_ctrl|server_stats|status_page|test_routes) lib/
// C39: each request is traced as one span.
#define ION_REAL_TELEMETRY
#include "../env/wallclock.h"
#include "../env/app.h"
#include "../env/tls.h"
using namespace env;
namespace ot = opentelemetry::trace;
using SpanList = std::vector<std::shared_ptr<ot::SpanData>>;
static SpanList& spans() { return ot::record::spans; }
static ot::Attribute* attr(ot::SpanData& d, const char* k) { for (auto& a : d.attrs) if (a.key == k) return &a; return nullptr; }
static bool eq(const std::string& a, const std::string& b) { return ref::sameStr(a, b); }
struct Req { int kind; std::string method, path; uint16_t status; };
static std::string text(size_t n, const char* w) { std::string s(n, 'x'); if (n) sym_make(s.data(), n, w); return s; }
static const int kKinds = 10;
static bool sequence = false;      // one of several requests
// the bytes of a request of this kind, and what its span must say; status 0: nothing
static Bytes make(int kind, size_t n, uint32_t sid, Req& q, Router& r) {
    q = {kind, "GET", "/ok", 200};
    switch (kind) {
        case 0: q.method = text(n, "method"); q.path = "/" + text(n, "path"); q.status = 404; break;
        case 1: { uint16_t st = sequence ? (uint16_t)(299 + sid) : sym_val<uint16_t>("status"); q.path = "/st" + std::to_string(sid) + text(n, "path"); q.status = st; r.add_route(q.path, "GET", [st](const HttpRequest&) { return HttpResponse{st}; }); break; }
        case 2: q.path = "/throw"; q.status = 500; break;
        case 3: q.path = "/throw2"; q.status = 500; break;
        case 4: q.method = "POST"; q.path = "/missing"; q.status = 404; break;
        case 5: { q.status = 0; Bytes b; ref::putLiteral(b, ":method", text(n, "method")); return frame(1, 5, sid, b); }
        case 6: { q.status = 0; Bytes b; ref::putLiteral(b, ":path", text(n, "path")); return frame(1, 5, sid, b); }
        case 7: q.status = 0; return frame(1, 5, sid, {0x82, 0xff});
        case 8: q.status = 0; return frame(1, 13, sid, {200, 0x82, 0x84});
        case 9: q.path = "/ok?" + text(n, "query"); q.status = 404; break;
    }
    Bytes b = reqBlock(q.method, q.path);
    ref::putLiteral(b, "x-q", text(n, "value"));
    return frame(1, 5, sid, b);
}
static void standard(Router& r) {
    r.add_route("/ok", "GET", [](const HttpRequest&) { return HttpResponse{200, {'o', 'k'}}; });
    r.add_route("/throw", "GET", [](const HttpRequest&) -> HttpResponse { throw std::runtime_error("x"); });
    r.add_route("/throw2", "GET", [](const HttpRequest&) -> HttpResponse { throw 5; });
}
static void says(ot::SpanData& d, const Req& q, const std::string& ip) {
    sym_assert(d.name == "http_request", "the span is named http_request");
    sym_assert(d.ends == 1, "the span is over when its request is");
    if (!q.status) return;
    auto *m = attr(d, "http.method"), *t = attr(d, "http.target"), *c = attr(d, "ion.client_ip"), *s = attr(d, "http.status_code");
    sym_assert(m && m->text && eq(m->s, q.method), "the span has the request's method");
    sym_assert(t && t->text && eq(t->s, q.path), "the span has the request's target");
    sym_assert(c && c->text && eq(c->s, ip), "the span has the client's address");
    sym_assert(s && !s->text && s->n == q.status, "the span has the response's status");
    sym_reach("traced");
}
static void apart() {
    for (size_t i = 0; i < spans().size(); ++i) for (size_t j = 0; j < i; ++j) sym_assert(spans()[i]->trace != spans()[j]->trace, "each request is a trace of its own");
    sym_assert(ot::record::active.empty(), "no span stays active after its request");
}
static spdlog::custom_flag_formatter* flag = nullptr;
static size_t tagged, untagged;
static void onLog(spdlog::level::level_enum) {
    if (!flag) return;
    spdlog::memory_buf_t b;
    std::tm t{};
    flag->format({}, t, b);
    if (ot::record::active.empty()) { sym_assert(b.s.empty(), "a message that belongs to no request carries no trace id"); ++untagged; return; }
    char id[33]{};
    ot::record::active.back()->GetContext().trace_id().ToLowerBase16(std::span<char, 32>(id, 32));
    sym_assert(b.s == "[" + std::string(id) + "] ", "a message logged for a request carries its trace id");
    ++tagged;
    sym_reach("logged");
}
static void on() {
    ot::Provider::SetTracerProvider(std::make_shared<opentelemetry::sdk::trace::TracerProvider>(std::make_unique<opentelemetry::sdk::trace::SpanProcessor>(opentelemetry::exporter::otlp::OtlpHttpExporterFactory::Create())));
}
int harness_main() {
    int mode = (int)sym_param(0), a = (int)sym_param(1); size_t n = (size_t)sym_param(2);
    ion::app::TraceIdFlag tf;
    auto cl = tf.clone();
    flag = cl.get(); spdlog::onLog = onLog;
    sequence = mode != 0;
    if (mode <= 2) {
        if (mode < 2) on();
        Session s;
        standard(s.r);
        std::string ip = mode == 0 ? text(n, "address") : "10.0.0.1";
        s.c = std::make_unique<Http2Connection>(std::make_unique<T>(s.w), ip, s.r);
        s.give(preface());
        s.give(frame(4, 0, 0, {}));
        sym_assert(spans().empty(), "only requests are traced");
        std::vector<Req> q;
        size_t count = mode == 0 ? 1 : mode == 1 ? (size_t)a : 2;
        for (size_t i = 0; i < count && !s.over; ++i) {
            Req x;
            int kind = mode == 0 ? a : (int)sym_choose(kKinds, "kind");
            Bytes b = make(kind, mode == 0 ? n : 1, (uint32_t)(2 * i + 1), x, s.r);
            size_t before = spans().size(), tag = tagged;
            s.give(b);
            if (mode == 2) continue;
            q.push_back(x);
            sym_assert(spans().size() == before + 1 || (kind >= 7 && kind <= 8 && spans().size() == before), "each request is one span");
            if (spans().size() > before) says(*spans()[before], x, ip);
            sym_assert(tagged > tag || (kind >= 7 && kind <= 8), "the messages about a request can be told by its trace id");
            s.give(frame(8, 0, 0, {0, 0, 1, 0}));
            s.give(frame(0, 1, 1, {1, 2, 3}));
            if (kind < 7 || kind > 8) sym_assert(spans().size() == before + 1, "only requests are traced");
        }
        apart();
        if (mode == 2) { sym_assert(spans().empty() && !tagged, "nothing is traced without a provider"); sym_reach("off"); }
        s.c.reset();
        apart();
        return 0;
    }
    if (mode == 5) {      // two connections, each with its own client
        on();
        Router r; standard(r);
        Wire w[2];
        std::unique_ptr<Http2Connection> c[2];
        std::string ip[2] = {text(1, "address"), text(1, "address")};
        for (int i = 0; i < 2; ++i) { c[i] = std::make_unique<Http2Connection>(std::make_unique<T>(w[i]), ip[i], r); w[i].give(preface()); c[i]->process(); }
        std::vector<std::pair<int, Req>> q;
        for (int i = 0; i < 3; ++i) {
            int who = (int)sym_choose(2, "who");
            Req x; Bytes b = make((int)sym_choose(5, "kind"), 1, (uint32_t)(2 * i + 1), x, r);
            w[who].give(b); c[who]->process();
            sym_assert(spans().size() == (size_t)i + 1, "each request is one span");
            says(*spans()[i], x, ip[who]);
        }
        apart();
        return 0;
    }
    // the whole program
    bool set = a != 99;
    std::string v = set && mode == 3 ? text((size_t)a, "OTEL_SDK_DISABLED") : "";
    for (char ch : v) sym_assume(ch != 0);
    if (set && mode == 3) appenv::vars["OTEL_SDK_DISABLED"] = v;
    bool disabled = set && eq(v, "true");
    namespace rec = opentelemetry::sdk::trace::record;
    net::Sock* p = nullptr;
    int seenExporters = -1;
    appenv::onStart = [&] {
        seenExporters = rec::exporters;
        auto* f = dynamic_cast<spdlog::pattern_formatter*>(spdlog::theFormatter().get());
        sym_assert(f && f->flags.size() == 1, "messages are given their trace id");
        std::string pat = f->pattern; char c = f->flags.begin()->first;
        sym_assert(pat.find(std::string("%") + c) != std::string::npos, "the trace id is part of every message");
        flag = f->flags.begin()->second.get();
    };
    if (mode == 3) srv::steps.push_back([&] { p = net::client(); add(p->in, srv::hello()); add(p->in, env::request(1, "/_tests/ok")); add(p->in, env::request(3, "/none")); });
    std::vector<std::string> args{"ion-server", "--cleartext", "--under-test"};
    int rc = appenv::runMain(args);
    sym_assert(rc == 0, "the program ends well");
    if (p) sym_assert(p->out.size() > 40, "requests are answered, traced or not");
    if (disabled) {
        sym_assert(seenExporters == 0 && spans().empty(), "nothing is exported when telemetry is disabled");
        sym_reach("off");
    } else {
        sym_assert(seenExporters == 1 && rec::service == "ion-server", "traces are exported for the service ion-server");
        sym_assert(spans().size() == (p ? 2u : 0u), "each request is one span");
        if (p) { Req a1{0, "GET", "/_tests/ok", 200}, b1{0, "GET", "/none", 404}; std::string ip = attr(*spans()[0], "ion.client_ip") ? attr(*spans()[0], "ion.client_ip")->s : ""; says(*spans()[0], a1, ip); says(*spans()[1], b1, ip); }
    }
    sym_assert(rec::exporters == 0 && rec::live == 0, "the exporter is shut down when the program ends");
    apart();
    return 0;
}
