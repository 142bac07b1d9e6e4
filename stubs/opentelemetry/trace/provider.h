#pragma once
#include "opentelemetry/trace/span.h"

namespace opentelemetry {
namespace trace {
class TracerProvider {
   public:
    virtual ~TracerProvider() = default;
    nostd::shared_ptr<Tracer> GetTracer(std::string_view) { return nostd::shared_ptr<Tracer>(new Tracer); }
};
class NoopTracerProvider : public TracerProvider {};
class Provider {
   public:
    static nostd::shared_ptr<TracerProvider> GetTracerProvider() {
        return nostd::shared_ptr<TracerProvider>(new TracerProvider);
    }
    static void SetTracerProvider(const nostd::shared_ptr<TracerProvider>&) {}
    static void SetTracerProvider(const std::shared_ptr<TracerProvider>&) {}
};
}  // namespace trace
}  // namespace opentelemetry
