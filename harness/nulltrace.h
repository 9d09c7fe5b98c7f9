// Discards trace events so that code under test does not write to stderr.
#ifndef VERIF_NULLTRACE_H_
#define VERIF_NULLTRACE_H_

#include <memory>

#include "fcp/tracing/tracing_recorder_impl.h"
#include "fcp/tracing/tracing_span_impl.h"

namespace nulltrace {

class Recorder;

class Span : public fcp::tracing_internal::TracingSpanImpl {
 public:
  explicit Span(Recorder* r) : r_(r) {}
  void TraceImpl(flatbuffers::DetachedBuffer&&,
                 const fcp::TracingTraitsBase&) override {}
  fcp::TracingSpanRef Ref() override;

 private:
  Recorder* r_;
};

class Recorder : public fcp::tracing_internal::TracingRecorderImpl {
 public:
  Recorder() : root_(this) {}
  void TraceImpl(fcp::TracingSpanId, flatbuffers::DetachedBuffer&&,
                 const fcp::TracingTraitsBase&) override {}
  fcp::tracing_internal::TracingSpanImpl* GetRootSpan() override { return &root_; }
  std::unique_ptr<fcp::tracing_internal::TracingSpanImpl> CreateChildSpan(
      fcp::TracingSpanId, flatbuffers::DetachedBuffer&&,
      const fcp::TracingTraitsBase&) override {
    return std::make_unique<Span>(this);
  }

 private:
  Span root_;
};

inline fcp::TracingSpanRef Span::Ref() {
  return fcp::TracingSpanRef(r_->shared_from_this(), fcp::TracingSpanId(0));
}

inline void Install() {
  static auto* recorder = [] {
    auto* r = new std::shared_ptr<Recorder>(new Recorder);
    (*r)->InstallAsGlobal();
    return r;
  }();
  (void)recorder;
}

}  // namespace nulltrace

#endif  // VERIF_NULLTRACE_H_
