// Stand-in for the OpenTelemetry API: the documented no-op behaviour until a provider is set; the
// stand-in for the SDK (sdk/trace/...) records what is told to it.
#pragma once
#include <opentelemetry/nostd/shared_ptr.h>
#include <cstdint>
#include <span>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
namespace opentelemetry::trace {
enum class StatusCode { kUnset, kOk, kError };
struct Attribute { std::string key; bool text; std::string s; int64_t n; };
struct SpanData { std::string name; std::vector<Attribute> attrs; int starts = 1, ends = 0; uint32_t trace = 0; bool exported = false; };
namespace record {
inline std::vector<std::shared_ptr<SpanData>> spans;      // every span started
inline uint32_t nextTrace = 0;
}
class TraceId {
    uint32_t v_;
public:
    explicit TraceId(uint32_t v = 0) : v_(v) {}
    bool IsValid() const { return v_ != 0; }
    void ToLowerBase16(std::span<char, 32> o) const { for (int i = 0; i < 32; ++i) { uint32_t d = i < 8 ? v_ >> (28 - 4 * i) & 15 : (uint32_t)(i * 7 + v_) & 15; o[i] = "0123456789abcdef"[d]; } }
};
class SpanContext {
    uint32_t v_;
public:
    explicit SpanContext(uint32_t v = 0) : v_(v) {}
    bool IsValid() const { return v_ != 0; }
    TraceId trace_id() const { return TraceId(v_); }
};
class Span {
    std::shared_ptr<SpanData> d_;
public:
    Span() = default;
    explicit Span(std::shared_ptr<SpanData> d) : d_(std::move(d)) {}
    Span(const Span&) = delete;
    Span& operator=(const Span&) = delete;
    ~Span() { End(); }
    template <class T> void SetAttribute(std::string_view k, const T& v) {
        if (!d_ || d_->ends) return;
        if constexpr (std::is_arithmetic_v<T>) put({std::string(k), false, "", (int64_t)v});
        else put({std::string(k), true, std::string(std::string_view(v)), 0});
    }
    void AddEvent(std::string_view) {}
    void SetStatus(StatusCode, std::string_view = "") {}
    void UpdateName(std::string_view n) { if (d_ && !d_->ends) d_->name = n; }
    void End() { if (d_ && !d_->ends) d_->ends = 1; }
    bool IsRecording() const { return d_ && !d_->ends; }
    uint32_t Trace() const { return d_ ? d_->trace : 0; }
    SpanContext GetContext() const { return SpanContext(d_ ? d_->trace : 0); }
private:
    void put(Attribute a) { for (auto& x : d_->attrs) if (x.key == a.key) { x = std::move(a); return; } d_->attrs.push_back(std::move(a)); }
};
namespace record { inline std::vector<nostd::shared_ptr<Span>> active; }     // innermost last
class Scope {
    size_t at_ = 0;      // place in `active`, 1-based; 0: none
public:
    Scope() = default;
    explicit Scope(const nostd::shared_ptr<Span>& s) { if (s && s->GetContext().IsValid()) { record::active.push_back(s); at_ = record::active.size(); } }
    Scope(Scope&& o) noexcept : at_(o.at_) { o.at_ = 0; }
    Scope(const Scope&) = delete;
    Scope& operator=(const Scope&) = delete;
    ~Scope() { if (at_ && record::active.size() >= at_) record::active.resize(at_ - 1); }
};
class Tracer {
    bool on_;
public:
    explicit Tracer(bool on = false) : on_(on) {}
    nostd::shared_ptr<Span> StartSpan(std::string_view n) {
        if (!on_) return std::make_shared<Span>();
        auto d = std::make_shared<SpanData>();
        d->name = n;
        d->trace = record::active.empty() ? ++record::nextTrace : record::active.back()->Trace();
        record::spans.push_back(d);
        return std::make_shared<Span>(d);
    }
    static Scope WithActiveSpan(nostd::shared_ptr<Span>& s) { return Scope{s}; }
    static nostd::shared_ptr<Span> GetCurrentSpan() { return record::active.empty() ? std::make_shared<Span>() : record::active.back(); }
};
class TracerProvider {
public:
    virtual ~TracerProvider() = default;
    virtual nostd::shared_ptr<Tracer> GetTracer(std::string_view) { return std::make_shared<Tracer>(); }
};
class NoopTracerProvider : public TracerProvider {};
class Provider {
    static nostd::shared_ptr<TracerProvider>& cur() { static nostd::shared_ptr<TracerProvider> p = std::make_shared<NoopTracerProvider>(); return p; }
public:
    static nostd::shared_ptr<TracerProvider> GetTracerProvider() { return cur(); }
    static void SetTracerProvider(const nostd::shared_ptr<TracerProvider>& p) { cur() = p; }
};
}
