// Minimal stand-in for tensorflow::Tensor: a typed, shaped value with the
// accessors the client code uses.
#ifndef VERIF_SHIM_TF_TENSOR_H_
#define VERIF_SHIM_TF_TENSOR_H_
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/types.pb.h"
#include "tensorflow/core/platform/types.h"
namespace tensorflow {
namespace verif {
inline size_t SizeOf(DataType t) {
  switch (t) {
    case DT_INT8: case DT_UINT8: case DT_BOOL: return 1;
    case DT_INT16: case DT_UINT16: return 2;
    case DT_INT32: case DT_UINT32: case DT_FLOAT: return 4;
    case DT_INT64: case DT_UINT64: case DT_DOUBLE: return 8;
    default: return 0;
  }
}
}  // namespace verif

class Tensor {
  struct Buf {
    std::vector<char> bytes;
    std::vector<tstring> strings;
  };

 public:
  Tensor() : Tensor(DT_FLOAT, TensorShape({0})) {}
  Tensor(DataType dtype, const TensorShape& shape)
      : dtype_(dtype), shape_(shape), buf_(std::make_shared<Buf>()) {
    if (dtype == DT_STRING) {
      buf_->strings.resize(shape.num_elements());
    } else {
      buf_->bytes.resize(shape.num_elements() * verif::SizeOf(dtype));
    }
  }
  explicit Tensor(std::string value) : Tensor(DT_STRING, TensorShape({})) {
    buf_->strings[0] = std::move(value);
  }

  DataType dtype() const { return dtype_; }
  const TensorShape& shape() const { return shape_; }
  int64_t NumElements() const { return shape_.num_elements(); }

  template <typename T>
  struct Map {
    T* data;
    int64_t n;
    T& operator()(int64_t i) const { return data[i]; }
    T& operator()() const { return data[0]; }
    int64_t size() const { return n; }
  };
  template <typename T>
  Map<T> flat() const {
    return {Data<T>(), NumElements()};
  }
  template <typename T>
  Map<T> scalar() const {
    if (NumElements() != 1) std::abort();
    return {Data<T>(), 1};
  }

  void AsProtoField(TensorProto* p) const {
    p->Clear();
    p->set_dtype(dtype_);
    shape_.AsProto(p->mutable_tensor_shape());
    if (dtype_ == DT_STRING) {
      for (const auto& s : buf_->strings) p->add_string_val(s);
    } else {
      p->set_tensor_content(
          std::string(buf_->bytes.begin(), buf_->bytes.end()));
    }
  }
  bool FromProto(const TensorProto& p) {
    if (p.dtype() == DT_INVALID) return false;
    Tensor t(p.dtype(), TensorShape(p.tensor_shape()));
    if (p.dtype() == DT_STRING) {
      if (p.string_val_size() > t.NumElements()) return false;
      for (int i = 0; i < p.string_val_size(); ++i)
        t.buf_->strings[i] = p.string_val(i);
    } else {
      if (p.tensor_content().size() != t.buf_->bytes.size()) return false;
      std::memcpy(t.buf_->bytes.data(), p.tensor_content().data(),
                  t.buf_->bytes.size());
    }
    *this = t;
    return true;
  }

 private:
  template <typename T>
  T* Data() const {
    if constexpr (std::is_same_v<std::remove_const_t<T>, tstring>) {
      if (dtype_ != DT_STRING) std::abort();
      return buf_->strings.data();
    } else {
      if (sizeof(T) != verif::SizeOf(dtype_)) std::abort();
      return reinterpret_cast<T*>(buf_->bytes.data());
    }
  }
  DataType dtype_;
  TensorShape shape_;
  std::shared_ptr<Buf> buf_;
};
}  // namespace tensorflow
#endif
