#ifndef VERIF_SHIM_TF_TENSOR_SHAPE_H_
#define VERIF_SHIM_TF_TENSOR_SHAPE_H_
#include <cstdint>
#include <initializer_list>
#include <vector>
#include "tensorflow/core/framework/tensor_shape.pb.h"
namespace tensorflow {
class TensorShape {
 public:
  TensorShape() = default;
  TensorShape(std::initializer_list<int64_t> dims) : dims_(dims) {}
  explicit TensorShape(const TensorShapeProto& p) {
    for (const auto& d : p.dim()) dims_.push_back(d.size());
  }
  void AddDim(int64_t d) { dims_.push_back(d); }
  int dims() const { return static_cast<int>(dims_.size()); }
  int64_t dim_size(int i) const { return dims_[i]; }
  int64_t num_elements() const {
    int64_t n = 1;
    for (int64_t d : dims_) n *= d;
    return n;
  }
  void AsProto(TensorShapeProto* p) const {
    p->Clear();
    for (int64_t d : dims_) p->add_dim()->set_size(d);
  }

 private:
  std::vector<int64_t> dims_;
};
}  // namespace tensorflow
#endif
