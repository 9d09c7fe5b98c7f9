// Stand-in writer: same layout as the TF checkpoint stand-in, magic "FCSHIM1".
#ifndef VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#define VERIF_SHIM_TFF_FC_CHECKPOINT_BUILDER_H_
#include <cstdint>
#include <memory>
#include <string>
#include "tensorflow_federated/cc/core/impl/aggregation/protocol/checkpoint_builder.h"
namespace tensorflow_federated {
namespace aggregation {
class VerifCheckpointBuilder : public CheckpointBuilder {
 public:
  absl::Status Add(const std::string& name, const Tensor& t) override {
    Str(name);
    switch (t.dtype()) {
      case DT_FLOAT: out_.push_back('f'); break;
      case DT_DOUBLE: out_.push_back('d'); break;
      case DT_INT32: out_.push_back('i'); break;
      case DT_INT64: out_.push_back('l'); break;
      case DT_STRING: out_.push_back('s'); break;
      default: return absl::InvalidArgumentError("dtype");
    }
    U64(t.num_elements());
    if (t.dtype() == DT_STRING) {
      for (absl::string_view s : t.AsSpan<absl::string_view>())
        Str(std::string(s));
    } else {
      out_.append(static_cast<const char*>(t.data().data()),
                  t.data().byte_size());
    }
    return absl::OkStatus();
  }
  absl::StatusOr<absl::Cord> Build() override { return absl::Cord(out_); }

 private:
  void U64(uint64_t v) { out_.append(reinterpret_cast<char*>(&v), 8); }
  void Str(const std::string& s) {
    U64(s.size());
    out_ += s;
  }
  std::string out_ = "FCSHIM1";
};
class FederatedComputeCheckpointBuilderFactory
    : public CheckpointBuilderFactory {
 public:
  std::unique_ptr<CheckpointBuilder> Create() const override {
    return std::make_unique<VerifCheckpointBuilder>();
  }
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
