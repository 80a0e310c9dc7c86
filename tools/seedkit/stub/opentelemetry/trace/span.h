// Stand-in for the OpenTelemetry API with its documented no-op provider behaviour.
#pragma once
#include <opentelemetry/nostd/shared_ptr.h>
#include <string>
#include <string_view>
namespace opentelemetry::trace {
enum class StatusCode { kUnset, kOk, kError };
class Span {
public:
    template <class T> void SetAttribute(std::string_view, const T&) {}
    void AddEvent(std::string_view) {}
    void SetStatus(StatusCode, std::string_view = "") {}
    void UpdateName(std::string_view) {}
    void End() {}
};
class Scope { public: Scope() = default; explicit Scope(const nostd::shared_ptr<Span>&) {} };
class Tracer {
public:
    nostd::shared_ptr<Span> StartSpan(std::string_view) { return std::make_shared<Span>(); }
    static Scope WithActiveSpan(nostd::shared_ptr<Span>&) { return Scope{}; }
};
class TracerProvider { public: nostd::shared_ptr<Tracer> GetTracer(std::string_view) { return std::make_shared<Tracer>(); } };
class Provider { public: static nostd::shared_ptr<TracerProvider> GetTracerProvider() { return std::make_shared<TracerProvider>(); } };
}
