// Stand-in for the OpenTelemetry SDK and its OTLP exporter.
#pragma once
#include <opentelemetry/trace/provider.h>
#include <initializer_list>
#include <map>
namespace opentelemetry::sdk::resource {
struct Resource { std::map<std::string, std::string> attrs; static Resource Create(std::initializer_list<std::pair<const std::string, std::string>> l) { Resource r; for (auto& x : l) r.attrs.insert(x); return r; } };
}
namespace opentelemetry::sdk::trace {
namespace record { inline int exporters = 0, live = 0; inline std::string service; }
struct SpanExporter { virtual ~SpanExporter() = default; };
struct SpanProcessor { std::unique_ptr<SpanExporter> e; explicit SpanProcessor(std::unique_ptr<SpanExporter> x) : e(std::move(x)) {} };
struct SimpleSpanProcessorFactory { static std::unique_ptr<SpanProcessor> Create(std::unique_ptr<SpanExporter>&& e) { return std::make_unique<SpanProcessor>(std::move(e)); } };
class TracerProvider : public opentelemetry::trace::TracerProvider {
    std::unique_ptr<SpanProcessor> p_;
public:
    explicit TracerProvider(std::unique_ptr<SpanProcessor> p) : p_(std::move(p)) { ++record::live; }
    ~TracerProvider() override { --record::live; }
    nostd::shared_ptr<opentelemetry::trace::Tracer> GetTracer(std::string_view) override { return std::make_shared<opentelemetry::trace::Tracer>(p_ && p_->e); }
};
struct TracerProviderFactory {
    static std::unique_ptr<opentelemetry::trace::TracerProvider> Create(std::unique_ptr<SpanProcessor> p, const resource::Resource& r = {}) {
        auto i = r.attrs.find("service.name");
        record::service = i == r.attrs.end() ? "unknown_service" : i->second;
        return std::make_unique<TracerProvider>(std::move(p));
    }
};
}
namespace opentelemetry::exporter::otlp {
struct OtlpHttpExporterOptions { std::string url; };
struct OtlpHttpExporter : sdk::trace::SpanExporter { OtlpHttpExporter() { ++sdk::trace::record::exporters; } ~OtlpHttpExporter() override { --sdk::trace::record::exporters; } };
struct OtlpHttpExporterFactory { static std::unique_ptr<sdk::trace::SpanExporter> Create(const OtlpHttpExporterOptions& = {}) { return std::make_unique<OtlpHttpExporter>(); } };
}
