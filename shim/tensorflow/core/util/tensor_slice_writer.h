// Stand-in for the TF checkpoint writer. Writes a plain, self-describing file:
// "TFSHIM1" then for each tensor: name, element type, element count, data.
#ifndef VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#define VERIF_SHIM_TF_TENSOR_SLICE_WRITER_H_
#include <cstdint>
#include <fstream>
#include <string>
#include <type_traits>
#include "absl/status/status.h"
#include "tensorflow/core/framework/tensor_shape.h"
#include "tensorflow/core/framework/tensor_slice.h"
#include "tensorflow/core/platform/types.h"
namespace tensorflow {
namespace checkpoint {
inline void CreateTableTensorSliceBuilder() {}
class TensorSliceWriter {
 public:
  template <typename F>
  TensorSliceWriter(const std::string& filename, F) : filename_(filename) {
    data_ = "TFSHIM1";
  }
  template <typename T>
  absl::Status Add(const std::string& name, const TensorShape& shape,
                   const TensorSlice&, const T* data) {
    Str(name);
    data_.push_back(Code<T>());
    U64(shape.num_elements());
    for (int64_t i = 0; i < shape.num_elements(); ++i) {
      if constexpr (std::is_same_v<T, std::string>) {
        Str(data[i]);
      } else {
        data_.append(reinterpret_cast<const char*>(&data[i]), sizeof(T));
      }
    }
    return absl::OkStatus();
  }
  absl::Status Finish() {
    std::ofstream out(filename_, std::ios::binary | std::ios::trunc);
    out.write(data_.data(), data_.size());
    out.close();
    if (!out) return absl::InternalError("checkpoint write failed");
    return absl::OkStatus();
  }

 private:
  void U64(uint64_t v) { data_.append(reinterpret_cast<char*>(&v), 8); }
  void Str(const std::string& s) {
    U64(s.size());
    data_ += s;
  }
  template <typename T>
  static char Code() {
    if (std::is_same_v<T, std::string>) return 's';
    if (std::is_same_v<T, int32_t>) return 'i';
    if (std::is_same_v<T, int64_t>) return 'l';
    if (std::is_same_v<T, bool>) return 'b';
    if (std::is_same_v<T, float>) return 'f';
    if (std::is_same_v<T, double>) return 'd';
    return '?';
  }
  std::string filename_;
  std::string data_;
};
}  // namespace checkpoint
}  // namespace tensorflow
#endif
