#ifndef VERIF_SHIM_TFF_TENSOR_SHAPE_H_
#define VERIF_SHIM_TFF_TENSOR_SHAPE_H_
#include <cstdint>
#include <initializer_list>
#include <vector>
namespace tensorflow_federated {
namespace aggregation {
class TensorShape {
 public:
  TensorShape(std::initializer_list<int64_t> d) : dims_(d) {}
  const std::vector<int64_t>& dim_sizes() const { return dims_; }
  int64_t NumElements() const {
    int64_t n = 1;
    for (int64_t d : dims_) n *= d;
    return n;
  }

 private:
  std::vector<int64_t> dims_;
};
}  // namespace aggregation
}  // namespace tensorflow_federated
#endif
