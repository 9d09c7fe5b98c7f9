#ifndef VERIF_SHIM_TFF_TENSOR_H_
#define VERIF_SHIM_TFF_TENSOR_H_
#include <memory>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor.pb.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_data.h"
#include "tensorflow_federated/cc/core/impl/aggregation/core/tensor_shape.h"
namespace tensorflow_federated {
namespace aggregation {
class Tensor {
 public:
  Tensor() : shape_({0}) {}
  Tensor(Tensor&&) = default;
  Tensor& operator=(Tensor&&) = default;
  static size_t ValueSize(DataType t) {
    switch (t) {
      case DT_FLOAT: case DT_INT32: return 4;
      case DT_DOUBLE: case DT_INT64: case DT_UINT64: return 8;
      case DT_STRING: return sizeof(absl::string_view);
      default: return 0;
    }
  }
  static absl::StatusOr<Tensor> Create(DataType dtype, TensorShape shape,
                                       std::unique_ptr<TensorData> data) {
    if (ValueSize(dtype) == 0)
      return absl::InvalidArgumentError("bad dtype");
    if (data->byte_size() != shape.NumElements() * ValueSize(dtype))
      return absl::InvalidArgumentError("TensorData byte_size is inconsistent");
    Tensor t;
    t.dtype_ = dtype;
    t.shape_ = std::move(shape);
    t.data_ = std::move(data);
    return t;
  }
  DataType dtype() const { return dtype_; }
  const TensorShape& shape() const { return shape_; }
  size_t num_elements() const { return shape_.NumElements(); }
  const TensorData& data() const { return *data_; }
  template <typename T>
  absl::Span<const T> AsSpan() const {
    return absl::Span<const T>(static_cast<const T*>(data_->data()),
                               num_elements());
  }

 private:
  DataType dtype_ = DT_INVALID;
  TensorShape shape_;
  std::unique_ptr<TensorData> data_;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
