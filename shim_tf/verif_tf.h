// Stand-in for the parts of TensorFlow the custom ops are written against:
// tensors, op and kernel registration, kernel contexts, datasets, an in-memory
// file system with fault injection, sorted tables and the checkpoint writer.
// Every TensorFlow header name in this directory includes this file.
#ifndef VERIF_SHIM_TF_OPS_H_
#define VERIF_SHIM_TF_OPS_H_

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/cord.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "absl/log/log.h"
#include "tensorflow/core/framework/tensor.pb.h"
#include "tensorflow/core/framework/tensor_shape.pb.h"
#include "tensorflow/core/framework/tensor_slice.pb.h"
#include "tensorflow/core/framework/types.pb.h"
#include "tensorflow/core/framework/versions.pb.h"
#include "tensorflow/core/util/saved_tensor_slice.pb.h"

#ifndef VLOG
#define VLOG(level) \
  if (true) {       \
  } else            \
    std::cerr
#endif
#ifndef VLOG_IS_ON
#define VLOG_IS_ON(level) false
#endif
#define TF_GRAPH_DEF_VERSION 1700
#define TF_CHECKPOINT_VERSION 1
#define TF_CHECKPOINT_VERSION_MIN_CONSUMER 0
#define TF_PREDICT_FALSE(x) (x)
#define TF_PREDICT_TRUE(x) (x)

namespace tensorflow {

using int8 = int8_t;
using int16 = int16_t;
using int32 = int32_t;
using int64 = int64_t;
using uint8 = uint8_t;
using uint16 = uint16_t;
using uint32 = uint32_t;
using uint64 = uint64_t;
using string = std::string;
using StringPiece = absl::string_view;
using Status = absl::Status;
template <typename T>
using StatusOr = absl::StatusOr<T>;
inline absl::Status OkStatus() { return absl::OkStatus(); }
constexpr char DEVICE_CPU[] = "CPU";

// ---- strings ---------------------------------------------------------------
class tstring {
 public:
  enum Type { SMALL, LARGE, OFFSET, VIEW };
  tstring() = default;
  tstring(const std::string& s) : s_(s) {}             // NOLINT
  tstring(std::string&& s) : s_(std::move(s)) {}       // NOLINT
  tstring(absl::string_view s) : s_(s.data(), s.size()) {}  // NOLINT
  tstring(const char* s) : s_(s) {}                    // NOLINT
  tstring(const char* s, size_t n) : s_(s, n) {}
  tstring(size_t n, char c) : s_(n, c) {}
  explicit tstring(const absl::Cord& c) : s_(std::string(c)) {}
  tstring& operator=(const std::string& s) { s_ = s; return *this; }
  tstring& operator=(std::string&& s) { s_ = std::move(s); return *this; }
  tstring& operator=(absl::string_view s) {
    s_.assign(s.data(), s.size());
    return *this;
  }
  tstring& operator=(const char* s) { s_ = s; return *this; }
  operator std::string() const { return s_; }          // NOLINT
  operator absl::string_view() const {                 // NOLINT
    return absl::string_view(s_.data(), s_.size());
  }
  const char* c_str() const { return s_.c_str(); }
  const char* data() const { return s_.data(); }
  char* mdata() { return &s_[0]; }
  char* data() { return &s_[0]; }
  size_t size() const { return s_.size(); }
  size_t length() const { return s_.size(); }
  size_t capacity() const { return s_.capacity(); }
  bool empty() const { return s_.empty(); }
  Type type() const { return SMALL; }
  void resize(size_t n, char c = 0) { s_.resize(n, c); }
  void reserve(size_t n) { s_.reserve(n); }
  void clear() { s_.clear(); }
  tstring& append(const tstring& o) { s_ += o.s_; return *this; }
  tstring& append(const char* p, size_t n) { s_.append(p, n); return *this; }
  tstring& operator+=(const tstring& o) { s_ += o.s_; return *this; }
  tstring& assign(const char* p, size_t n) { s_.assign(p, n); return *this; }
  const char* begin() const { return s_.data(); }
  const char* end() const { return s_.data() + s_.size(); }
  char operator[](size_t i) const { return s_[i]; }
  char& operator[](size_t i) { return s_[i]; }
  friend bool operator==(const tstring& a, const tstring& b) { return a.s_ == b.s_; }
  friend bool operator!=(const tstring& a, const tstring& b) { return a.s_ != b.s_; }
  friend bool operator<(const tstring& a, const tstring& b) { return a.s_ < b.s_; }
  friend bool operator>(const tstring& a, const tstring& b) { return a.s_ > b.s_; }
  friend std::ostream& operator<<(std::ostream& os, const tstring& t) {
    return os << t.s_;
  }

 private:
  std::string s_;
};

// ---- errors ----------------------------------------------------------------
namespace errors {
namespace internal {
inline std::string Piece(const tstring& t) { return std::string(t); }
inline std::string Piece(const std::string& t) { return t; }
inline std::string Piece(const char* t) { return t; }
inline std::string Piece(absl::string_view t) { return std::string(t); }
template <typename T>
std::string Piece(const T& t) {
  std::ostringstream os;
  os << t;
  return os.str();
}
template <typename... A>
std::string Cat(const A&... a) {
  std::string out;
  (void)std::initializer_list<int>{(out += Piece(a), 0)...};
  return out;
}
}  // namespace internal
#define VERIF_TF_ERROR(NAME, CODE)                                \
  template <typename... A>                                        \
  absl::Status NAME(const A&... a) {                              \
    return absl::Status(absl::StatusCode::CODE, internal::Cat(a...)); \
  }                                                               \
  inline bool Is##NAME(const absl::Status& s) {                   \
    return s.code() == absl::StatusCode::CODE;                    \
  }
VERIF_TF_ERROR(InvalidArgument, kInvalidArgument)
VERIF_TF_ERROR(Internal, kInternal)
VERIF_TF_ERROR(Unimplemented, kUnimplemented)
VERIF_TF_ERROR(NotFound, kNotFound)
VERIF_TF_ERROR(OutOfRange, kOutOfRange)
VERIF_TF_ERROR(DataLoss, kDataLoss)
VERIF_TF_ERROR(Unavailable, kUnavailable)
VERIF_TF_ERROR(FailedPrecondition, kFailedPrecondition)
VERIF_TF_ERROR(AlreadyExists, kAlreadyExists)
VERIF_TF_ERROR(Aborted, kAborted)
VERIF_TF_ERROR(Cancelled, kCancelled)
VERIF_TF_ERROR(Unknown, kUnknown)
VERIF_TF_ERROR(PermissionDenied, kPermissionDenied)
VERIF_TF_ERROR(ResourceExhausted, kResourceExhausted)
#undef VERIF_TF_ERROR
template <typename... A>
void AppendToMessage(absl::Status* s, const A&... a) {
  *s = absl::Status(s->code(),
                    absl::StrCat(s->message(), "\n\t", internal::Cat(a...)));
}
}  // namespace errors

namespace strings {
template <typename... A>
std::string StrCat(const A&... a) {
  return errors::internal::Cat(a...);
}
}  // namespace strings

#define TF_RETURN_IF_ERROR(...)                    \
  do {                                             \
    absl::Status verif_s_ = (__VA_ARGS__);         \
    if (!verif_s_.ok()) return verif_s_;           \
  } while (0)
#define TF_RETURN_WITH_CONTEXT_IF_ERROR(EXPR, ...)                  \
  do {                                                              \
    absl::Status verif_s_ = (EXPR);                                 \
    if (!verif_s_.ok()) {                                           \
      ::tensorflow::errors::AppendToMessage(&verif_s_, __VA_ARGS__); \
      return verif_s_;                                              \
    }                                                               \
  } while (0)

// ---- shapes, tensors -------------------------------------------------------
using DataTypeVector = std::vector<DataType>;
template <typename A, typename B>
bool FastBoundsCheck(A index, B limit) {
  return index >= 0 && static_cast<uint64_t>(index) < static_cast<uint64_t>(limit);
}

class TensorShape {
 public:
  TensorShape() = default;
  TensorShape(std::initializer_list<int64_t> d) : dims_(d) {}
  explicit TensorShape(std::vector<int64_t> d) : dims_(std::move(d)) {}
  explicit TensorShape(const TensorShapeProto& p) {
    for (const auto& d : p.dim()) dims_.push_back(d.size());
  }
  void AddDim(int64_t d) { dims_.push_back(d); }
  void Clear() { dims_.clear(); }
  int dims() const { return static_cast<int>(dims_.size()); }
  int64_t dim_size(int i) const { return dims_.at(i); }
  int64_t num_elements() const {
    int64_t n = 1;
    for (int64_t d : dims_) n *= d;
    return n;
  }
  void AsProto(TensorShapeProto* p) const {
    p->Clear();
    for (int64_t d : dims_) p->add_dim()->set_size(d);
  }
  bool IsSameSize(const TensorShape& o) const { return dims_ == o.dims_; }
  bool operator==(const TensorShape& o) const { return dims_ == o.dims_; }
  bool operator!=(const TensorShape& o) const { return dims_ != o.dims_; }
  std::string DebugString() const {
    std::string out = "[";
    for (size_t i = 0; i < dims_.size(); ++i)
      absl::StrAppend(&out, i ? "," : "", dims_[i]);
    return out + "]";
  }

 private:
  std::vector<int64_t> dims_;
};
struct TensorShapeUtils {
  static bool IsScalar(const TensorShape& s) { return s.dims() == 0; }
  static bool IsVector(const TensorShape& s) { return s.dims() == 1; }
};
class PartialTensorShape {
 public:
  PartialTensorShape() = default;
  PartialTensorShape(std::initializer_list<int64_t> d) : dims_(d) {}
  int dims() const { return static_cast<int>(dims_.size()); }

 private:
  std::vector<int64_t> dims_;
};

template <typename T>
struct DataTypeToEnum;
#define VERIF_TF_TYPE(T, E)               \
  template <>                             \
  struct DataTypeToEnum<T> {              \
    static constexpr DataType v() { return E; } \
    static constexpr DataType value = E;  \
  };
VERIF_TF_TYPE(float, DT_FLOAT)
VERIF_TF_TYPE(double, DT_DOUBLE)
VERIF_TF_TYPE(int32_t, DT_INT32)
VERIF_TF_TYPE(int64_t, DT_INT64)
VERIF_TF_TYPE(uint8_t, DT_UINT8)
VERIF_TF_TYPE(uint16_t, DT_UINT16)
VERIF_TF_TYPE(int16_t, DT_INT16)
VERIF_TF_TYPE(int8_t, DT_INT8)
VERIF_TF_TYPE(bool, DT_BOOL)
VERIF_TF_TYPE(uint32_t, DT_UINT32)
VERIF_TF_TYPE(uint64_t, DT_UINT64)
VERIF_TF_TYPE(tstring, DT_STRING)
#undef VERIF_TF_TYPE
#define TF_CALL_SAVE_RESTORE_TYPES(m)                                    \
  m(float) m(double) m(int32_t) m(int64_t) m(uint8_t) m(uint16_t) m(int16_t) \
  m(int8_t) m(bool) m(::tensorflow::tstring)
inline std::string DataTypeString(DataType t) { return DataType_Name(t); }
inline size_t DataTypeSize(DataType t) {
  switch (t) {
    case DT_INT8: case DT_UINT8: case DT_BOOL: return 1;
    case DT_INT16: case DT_UINT16: return 2;
    case DT_INT32: case DT_UINT32: case DT_FLOAT: return 4;
    case DT_INT64: case DT_UINT64: case DT_DOUBLE: return 8;
    default: return 0;
  }
}

template <typename T>
struct FlatMap {
  T* p = nullptr;
  int64_t n = 0;
  T* data() const { return p; }
  T& operator()(int64_t i) const {
    if (i < 0 || i >= n) std::abort();
    return p[i];
  }
  T& operator()() const { return (*this)(0); }
  int64_t size() const { return n; }
  T* begin() const { return p; }
  T* end() const { return p + n; }
};
template <typename T>
struct TTypes {
  using Flat = FlatMap<T>;
  using ConstFlat = FlatMap<const T>;
  using Scalar = FlatMap<T>;
  using ConstScalar = FlatMap<const T>;
  using Vec = FlatMap<T>;
  using ConstVec = FlatMap<const T>;
};

struct AllocatorAttributes {};
class Allocator {};

class Tensor {
  struct Buf {
    std::vector<char> bytes;
    std::vector<tstring> strings;
  };

 public:
  Tensor() : Tensor(DT_FLOAT, TensorShape({0})) {}
  Tensor(DataType dtype, const TensorShape& shape)
      : dtype_(dtype), shape_(shape), buf_(std::make_shared<Buf>()) {
    if (dtype == DT_STRING) {
      buf_->strings.resize(shape.num_elements());
    } else {
      buf_->bytes.resize(shape.num_elements() * DataTypeSize(dtype));
    }
  }
  Tensor(Allocator*, DataType dtype, const TensorShape& shape)
      : Tensor(dtype, shape) {}
  explicit Tensor(const tstring& v) : Tensor(DT_STRING, TensorShape({})) {
    buf_->strings[0] = v;
  }
  DataType dtype() const { return dtype_; }
  const TensorShape& shape() const { return shape_; }
  int dims() const { return shape_.dims(); }
  int64_t dim_size(int i) const { return shape_.dim_size(i); }
  int64_t NumElements() const { return shape_.num_elements(); }
  template <typename T>
  FlatMap<T> flat() { return {Data<T>(), NumElements()}; }
  template <typename T>
  FlatMap<const T> flat() const { return {Data<T>(), NumElements()}; }
  template <typename T>
  FlatMap<T> vec() { return flat<T>(); }
  template <typename T>
  FlatMap<const T> vec() const { return flat<T>(); }
  template <typename T>
  FlatMap<T> scalar() {
    if (NumElements() != 1) std::abort();
    return {Data<T>(), 1};
  }
  template <typename T>
  FlatMap<const T> scalar() const {
    if (NumElements() != 1) std::abort();
    return {Data<T>(), 1};
  }
  StringPiece tensor_data() const {
    if (dtype_ == DT_STRING)
      return StringPiece(reinterpret_cast<const char*>(buf_->strings.data()),
                         buf_->strings.size() * sizeof(tstring));
    return StringPiece(buf_->bytes.data(), buf_->bytes.size());
  }
  bool SharesBufferWith(const Tensor& o) const { return buf_ == o.buf_; }

 private:
  template <typename T>
  T* Data() const {
    if (DataTypeToEnum<T>::v() != dtype_) std::abort();
    if constexpr (std::is_same_v<T, tstring>) {
      return buf_->strings.data();
    } else {
      return reinterpret_cast<T*>(buf_->bytes.data());
    }
  }
  DataType dtype_;
  TensorShape shape_;
  std::shared_ptr<Buf> buf_;
};

// ---- file system -----------------------------------------------------------
namespace verif {
// The faults a case asks for: the n-th call (from 1) of a kind fails.
struct Faults {
  std::map<std::string, int> seen;
  std::map<std::string, std::set<int>> fail;
  // Called before every file system call, outside of any lock.
  std::function<void(const std::string&)> before;
  bool any_failed = false;
};
}  // namespace verif

class RandomAccessFile {
 public:
  virtual ~RandomAccessFile() = default;
  virtual absl::Status Name(StringPiece* result) const {
    return errors::Unimplemented("Name");
  }
  virtual absl::Status Read(uint64_t offset, size_t n, StringPiece* result,
                            char* scratch) const = 0;
};
class WritableFile {
 public:
  virtual ~WritableFile() = default;
  virtual absl::Status Append(StringPiece data) = 0;
  virtual absl::Status Close() = 0;
  virtual absl::Status Flush() = 0;
  virtual absl::Status Name(StringPiece* result) const {
    return errors::Unimplemented("Name");
  }
  virtual absl::Status Sync() = 0;
  virtual absl::Status Tell(int64_t* position) {
    *position = -1;
    return errors::Unimplemented("Tell");
  }
};

class Env {
 public:
  using Content = std::shared_ptr<std::string>;
  static Env* Default();

  absl::Status GetFileSize(const std::string& f, uint64_t* size);
  absl::Status NewRandomAccessFile(const std::string& f,
                                   std::unique_ptr<RandomAccessFile>* out);
  absl::Status NewAppendableFile(const std::string& f,
                                 std::unique_ptr<WritableFile>* out);
  absl::Status NewWritableFile(const std::string& f,
                               std::unique_ptr<WritableFile>* out);
  absl::Status FileExists(const std::string& f);
  absl::Status IsDirectory(const std::string& f);
  absl::Status DeleteFile(const std::string& f);
  absl::Status DeleteDir(const std::string& f);
  absl::Status DeleteRecursively(const std::string& f, int64_t* files,
                                 int64_t* dirs);
  absl::Status RenameFile(const std::string& from, const std::string& to);
  absl::Status CopyFile(const std::string& from, const std::string& to);
  absl::Status CreateDir(const std::string& f);
  absl::Status RecursivelyCreateDir(const std::string& f);
  absl::Status GetChildren(const std::string& f, std::vector<std::string>* out);
  absl::Status CanCreateTempFile(const std::string&, bool* can) {
    *can = true;
    return absl::OkStatus();
  }
  bool LocalTempFilename(std::string* f);
  uint64_t NowMicros() { return 0; }
  uint64_t NowNanos() { return 0; }

  // State, for the harness.
  absl::Status Fault(const std::string& kind);
  std::recursive_mutex mu;
  std::map<std::string, Content> files;
  std::set<std::string> dirs;
  verif::Faults faults;
  int next_temp = 0;
};

// ---- tables ----------------------------------------------------------------
namespace crc32c {
uint32_t Extend(uint32_t crc, const char* buf, size_t size);
inline uint32_t Value(const char* data, size_t n) { return Extend(0, data, n); }
}  // namespace crc32c

namespace table {
enum CompressionType { kNoCompression = 0, kSnappyCompression = 1 };
struct Options {
  size_t block_size = 262144;
  int block_restart_interval = 16;
  CompressionType compression = kNoCompression;
};
class Iterator {
 public:
  virtual ~Iterator() = default;
  virtual bool Valid() const = 0;
  virtual void SeekToFirst() = 0;
  virtual void Seek(const StringPiece& target) = 0;
  virtual void Next() = 0;
  virtual StringPiece key() const = 0;
  virtual StringPiece value() const = 0;
  virtual absl::Status status() const = 0;
};
class TableBuilder {
 public:
  TableBuilder(const Options& options, WritableFile* file)
      : file_(file) {}
  void Add(const StringPiece& key, const StringPiece& value);
  void Flush();
  absl::Status status() const { return status_; }
  absl::Status Finish();
  void Abandon() {}
  uint64_t NumEntries() const { return entries_; }
  uint64_t FileSize() const { return offset_; }

 private:
  void Write(const std::string& s);
  WritableFile* file_;
  absl::Status status_;
  std::string block_, index_, last_;
  uint64_t offset_ = 0, entries_ = 0;
  int in_block_ = 0;
};
class Table {
 public:
  static absl::Status Open(const Options& options, RandomAccessFile* file,
                           uint64_t size, Table** out);
  Iterator* NewIterator() const;
  struct Handle {
    uint64_t offset, size;
  };
  RandomAccessFile* file_ = nullptr;
  std::vector<Handle> blocks_;
};
}  // namespace table

namespace verif {
// Entries per table block, and a note of keys added out of order.
extern int table_block_entries;
extern std::string table_misuse;
}  // namespace verif

// ---- checkpoints -----------------------------------------------------------
class TensorSlice {
 public:
  TensorSlice() = default;
  explicit TensorSlice(int dims) : start_(dims, 0), len_(dims, -1) {}
  static absl::Status Parse(const std::string& s, TensorSlice* out);
  int dims() const { return static_cast<int>(start_.size()); }
  bool IsFullAt(int d) const { return len_[d] < 0; }
  int64_t start(int d) const { return start_[d]; }
  int64_t length(int d) const { return len_[d]; }
  void AsProto(TensorSliceProto* p) const;
  absl::Status SliceTensorShape(const TensorShape& shape, TensorShape* out) const;
  void Add(int64_t start, int64_t len) {
    start_.push_back(start);
    len_.push_back(len);
  }

 private:
  std::vector<int64_t> start_, len_;
};

namespace checkpoint {
extern const char kSavedTensorSlicesKey[];
std::string EncodeTensorNameSlice(const std::string& name,
                                  const TensorSlice& slice);
absl::Status ParseShapeAndSlice(const std::string& spec, TensorShape* shape,
                                TensorSlice* slice, TensorShape* shape_slice);

class TensorSliceWriter {
 public:
  class Builder {
   public:
    virtual ~Builder() = default;
    virtual void Add(StringPiece key, StringPiece value) = 0;
    virtual absl::Status Finish(int64_t* file_size) = 0;
  };
  typedef std::function<absl::Status(const std::string&, Builder**)>
      CreateBuilderFunction;
  TensorSliceWriter(const std::string& filename, CreateBuilderFunction f);
  template <typename T>
  absl::Status Add(const std::string& name, const TensorShape& shape,
                   const TensorSlice& slice, const T* data) {
    TensorShape saved;
    TF_RETURN_IF_ERROR(slice.SliceTensorShape(shape, &saved));
    TensorProto t;
    t.set_dtype(DataTypeToEnum<T>::v());
    for (int64_t i = 0; i < saved.num_elements(); ++i) {
      if constexpr (std::is_same_v<T, tstring>) {
        t.add_string_val(std::string(data[i]));
      } else {
        t.mutable_tensor_content()->append(
            reinterpret_cast<const char*>(&data[i]), sizeof(T));
      }
    }
    return AddSlice(name, shape, slice, t);
  }
  absl::Status Finish();

 private:
  absl::Status AddSlice(const std::string& name, const TensorShape& shape,
                        const TensorSlice& slice, const TensorProto& data);
  std::string filename_, data_filename_;
  CreateBuilderFunction create_builder_;
  bool use_temp_ = false;
  SavedTensorSlices sts_;
  std::map<std::string, int> index_;
  std::map<std::string, std::string> data_;
};
absl::Status CreateTableTensorSliceBuilder(const std::string& filename,
                                           TensorSliceWriter::Builder** builder);
}  // namespace checkpoint

// ---- ops and kernels -------------------------------------------------------
namespace shape_inference {
struct ShapeHandle {};
class InferenceContext {
 public:
  ShapeHandle Scalar() { return {}; }
  ShapeHandle input(int) { return {}; }
  void set_output(int, ShapeHandle) {}
};
inline absl::Status ScalarShape(InferenceContext*) { return absl::OkStatus(); }
inline absl::Status UnchangedShape(InferenceContext*) { return absl::OkStatus(); }
inline absl::Status UnknownShape(InferenceContext*) { return absl::OkStatus(); }
inline absl::Status NoOutputs(InferenceContext*) { return absl::OkStatus(); }
}  // namespace shape_inference

class NodeDef {
 public:
  int input_size() const { return static_cast<int>(input_.size()); }
  const std::string& input(int i) const { return input_.at(i); }
  const std::vector<std::string>& input() const { return input_; }
  const std::string& name() const { return name_; }
  void add_input(const std::string& s) { input_.push_back(s); }
  void set_name(const std::string& s) { name_ = s; }

 private:
  std::string name_;
  std::vector<std::string> input_;
};

namespace verif {
struct OpDef {
  std::string name;
  std::vector<std::pair<std::string, std::string>> inputs, outputs;
  std::vector<std::string> attrs;
  bool stateful = false;
};
struct OpDefBuilder {
  OpDef d;
  explicit OpDefBuilder(const char* n) { d.name = n; }
  static std::pair<std::string, std::string> Split(const std::string& s);
  OpDefBuilder& Input(const std::string& s) { d.inputs.push_back(Split(s)); return *this; }
  OpDefBuilder& Output(const std::string& s) { d.outputs.push_back(Split(s)); return *this; }
  OpDefBuilder& Attr(const std::string& s) { d.attrs.push_back(s); return *this; }
  OpDefBuilder& SetIsStateful() { d.stateful = true; return *this; }
  OpDefBuilder& SetIsCommutative() { return *this; }
  OpDefBuilder& SetDoNotOptimize() { return *this; }
  OpDefBuilder& Doc(const std::string&) { return *this; }
  template <typename F>
  OpDefBuilder& SetShapeFn(F f) {
    shape_inference::InferenceContext c;
    (void)f(&c);
    return *this;
  }
};
std::map<std::string, OpDef>& Ops();
struct OpReg {
  OpReg(const OpDefBuilder& b) { Ops()[b.d.name] = b.d; }  // NOLINT
};
}  // namespace verif
#define VERIF_TF_CAT2(a, b) a##b
#define VERIF_TF_CAT(a, b) VERIF_TF_CAT2(a, b)
#define REGISTER_OP(NAME)                                                \
  static const ::tensorflow::verif::OpReg VERIF_TF_CAT(verif_op_, __COUNTER__) = \
      ::tensorflow::verif::OpDefBuilder(NAME)

class OpKernelConstruction {
 public:
  absl::Status GetAttr(StringPiece name, std::string* out) const {
    auto it = string_attrs.find(std::string(name));
    if (it == string_attrs.end()) return errors::NotFound("No attr ", name);
    *out = it->second;
    return absl::OkStatus();
  }
  absl::Status GetAttr(StringPiece name, tstring* out) const {
    std::string s;
    TF_RETURN_IF_ERROR(GetAttr(name, &s));
    *out = s;
    return absl::OkStatus();
  }
  bool HasAttr(StringPiece name) const {
    return string_attrs.count(std::string(name)) > 0;
  }
  const NodeDef& def() const { return def_; }
  void SetStatus(const absl::Status& s) {
    if (status_.ok()) status_ = s;
  }
  void CtxFailure(const absl::Status& s) { SetStatus(s); }
  const absl::Status& status() const { return status_; }
  Env* env() const { return Env::Default(); }
  NodeDef def_;
  std::map<std::string, std::string> string_attrs;
  absl::Status status_;
};

class OpInputList {
 public:
  OpInputList() = default;
  OpInputList(const Tensor* b, int n) : b_(b), n_(n) {}
  int size() const { return n_; }
  const Tensor& operator[](int i) const { return b_[i]; }
  const Tensor* begin() const { return b_; }
  const Tensor* end() const { return b_ + n_; }

 private:
  const Tensor* b_ = nullptr;
  int n_ = 0;
};

class OpKernelContext {
 public:
  int num_inputs() const { return static_cast<int>(inputs.size()); }
  int num_outputs() const { return static_cast<int>(op->outputs.size()); }
  const Tensor& input(int i) const { return inputs.at(i); }
  absl::Status input(StringPiece name, const Tensor** out) const;
  absl::Status input_list(StringPiece name, OpInputList* out) const;
  DataType input_dtype(int i) const { return inputs.at(i).dtype(); }
  absl::Status allocate_output(int i, const TensorShape& shape, Tensor** out);
  absl::Status allocate_output(StringPiece name, const TensorShape& shape,
                               Tensor** out);
  void set_output(int i, const Tensor& t);
  Tensor* mutable_output(int i) { return outputs.at(i).get(); }
  void SetStatus(const absl::Status& s) {
    if (status_.ok()) status_ = s;
  }
  void CtxFailure(const absl::Status& s) { SetStatus(s); }
  void CtxFailureWithWarning(const absl::Status& s) { SetStatus(s); }
  const absl::Status& status() const { return status_; }
  Env* env() const { return Env::Default(); }

  const verif::OpDef* op = nullptr;
  std::vector<Tensor> inputs;
  // First index and number of inputs per named argument.
  std::map<std::string, std::pair<int, int>> ranges;
  std::vector<std::unique_ptr<Tensor>> outputs;
  absl::Status status_;
};

class OpKernel {
 public:
  explicit OpKernel(OpKernelConstruction* c) : def_(c->def()) {}
  virtual ~OpKernel() = default;
  virtual void Compute(OpKernelContext* context) = 0;
  const std::string& name() const { return def_.name(); }
  const NodeDef& def() const { return def_; }

 private:
  NodeDef def_;
};

namespace verif {
using KernelFactory = std::function<OpKernel*(OpKernelConstruction*)>;
std::map<std::string, KernelFactory>& Kernels();
struct KernelReg {
  KernelReg(const std::string& name, KernelFactory f) { Kernels()[name] = f; }
};
}  // namespace verif
namespace register_kernel {
struct Name {
  std::string name;
  explicit Name(const char* n) : name(n) {}
  Name& Device(const char*) { return *this; }
  Name& HostMemory(const char*) { return *this; }
  template <typename T>
  Name& TypeConstraint(const char*) { return *this; }
};
}  // namespace register_kernel
#define REGISTER_KERNEL_BUILDER(BUILDER, ...)                         \
  static const ::tensorflow::verif::KernelReg VERIF_TF_CAT(           \
      verif_kernel_, __COUNTER__)(                                    \
      ::tensorflow::register_kernel::BUILDER.name,                    \
      [](::tensorflow::OpKernelConstruction* c)                       \
          -> ::tensorflow::OpKernel* { return new __VA_ARGS__(c); })

#define OP_REQUIRES(CTX, EXP, ...)       \
  do {                                   \
    if (!(EXP)) {                        \
      (CTX)->SetStatus((__VA_ARGS__));   \
      return;                            \
    }                                    \
  } while (0)
#define OP_REQUIRES_OK(CTX, ...)           \
  do {                                     \
    absl::Status verif_s_ = (__VA_ARGS__); \
    if (!verif_s_.ok()) {                  \
      (CTX)->SetStatus(verif_s_);          \
      return;                              \
    }                                      \
  } while (0)

// ---- datasets --------------------------------------------------------------
class Node {};
namespace data {
class SerializationContext {};
class IteratorStateWriter {};
class IteratorStateReader {};
class IteratorContext {
 public:
  Allocator* allocator(AllocatorAttributes) { return &alloc_; }

 private:
  Allocator alloc_;
};
class DatasetContext {
 public:
  explicit DatasetContext(OpKernelContext*) {}
};
class IteratorBase {
 public:
  virtual ~IteratorBase() = default;
  virtual absl::Status GetNext(IteratorContext* ctx,
                               std::vector<Tensor>* out_tensors,
                               bool* end_of_sequence) = 0;
  virtual const std::string& prefix() const = 0;

 protected:
  virtual absl::Status SaveInternal(SerializationContext*, IteratorStateWriter*) = 0;
  virtual absl::Status RestoreInternal(IteratorContext*, IteratorStateReader*) = 0;
};
class DatasetBase {
 public:
  class DatasetGraphDefBuilder {};
  explicit DatasetBase(DatasetContext) {}
  explicit DatasetBase(DatasetContext&&, int) {}
  virtual ~DatasetBase() = default;
  absl::Status MakeIterator(const std::string& prefix,
                            std::unique_ptr<IteratorBase>* out) const {
    *out = MakeIteratorInternal(prefix);
    return absl::OkStatus();
  }
  virtual std::unique_ptr<IteratorBase> MakeIteratorInternal(
      const std::string& prefix) const = 0;
  virtual const DataTypeVector& output_dtypes() const = 0;
  virtual const std::vector<PartialTensorShape>& output_shapes() const = 0;
  virtual std::string DebugString() const = 0;
  virtual absl::Status InputDatasets(
      std::vector<const DatasetBase*>* inputs) const = 0;
  virtual absl::Status CheckExternalState() const = 0;
  void Ref() const { ++refs_; }
  bool Unref() const {
    if (--refs_ == 0) {
      delete this;
      return true;
    }
    return false;
  }

 protected:
  virtual absl::Status AsGraphDefInternal(SerializationContext* ctx,
                                          DatasetGraphDefBuilder* b,
                                          Node** node) const = 0;

 private:
  mutable int refs_ = 1;
};
template <class D>
class DatasetIterator : public IteratorBase {
 public:
  struct Params {
    Params(const D* d, std::string p) : dataset(d), prefix(std::move(p)) {}
    const D* dataset;
    const std::string prefix;
  };
  explicit DatasetIterator(const Params& p) : p_(p) { p_.dataset->Ref(); }
  ~DatasetIterator() override { p_.dataset->Unref(); }
  const D* dataset() const { return p_.dataset; }
  const std::string& prefix() const override { return p_.prefix; }
  absl::Status GetNext(IteratorContext* ctx, std::vector<Tensor>* out,
                       bool* end) final {
    out->clear();
    absl::Status s = GetNextInternal(ctx, out, end);
    if (errors::IsOutOfRange(s)) {
      s = errors::Internal("Iterator returned OutOfRange: ", s.message());
    }
    return s;
  }

 protected:
  virtual absl::Status GetNextInternal(IteratorContext* ctx,
                                       std::vector<Tensor>* out_tensors,
                                       bool* end_of_sequence) = 0;

 private:
  Params p_;
};
class DatasetOpKernel : public OpKernel {
 public:
  explicit DatasetOpKernel(OpKernelConstruction* c) : OpKernel(c) {}
  void Compute(OpKernelContext* ctx) final {
    DatasetBase* d = nullptr;
    MakeDataset(ctx, &d);
    if (ctx->status().ok()) last = d;
  }
  // The dataset made last; the caller takes over its reference.
  DatasetBase* last = nullptr;

 protected:
  virtual void MakeDataset(OpKernelContext* ctx, DatasetBase** output) = 0;
};
template <typename T>
absl::Status ParseScalarArgument(OpKernelContext* ctx, StringPiece name,
                                 T* out) {
  const Tensor* t;
  TF_RETURN_IF_ERROR(ctx->input(name, &t));
  if (!TensorShapeUtils::IsScalar(t->shape()))
    return errors::InvalidArgument(name, " must be a scalar");
  *out = t->scalar<T>()();
  return absl::OkStatus();
}
template <typename T>
absl::Status ParseVectorArgument(OpKernelContext* ctx, StringPiece name,
                                 std::vector<T>* out) {
  const Tensor* t;
  TF_RETURN_IF_ERROR(ctx->input(name, &t));
  if (!TensorShapeUtils::IsVector(t->shape()))
    return errors::InvalidArgument(name, " must be a vector");
  out->clear();
  for (int64_t i = 0; i < t->NumElements(); ++i)
    out->push_back(t->vec<T>()(i));
  return absl::OkStatus();
}
}  // namespace data

namespace verif {
// Fills in the argument ranges of a call; each entry of `args` is one named
// argument, in the order the op declares them.
absl::Status SetInputs(OpKernelContext* ctx, const std::string& op,
                       const std::vector<std::vector<Tensor>>& args);
}  // namespace verif
}  // namespace tensorflow

namespace tsl {
using tensorflow::tstring;
namespace errors = ::tensorflow::errors;
}  // namespace tsl
#endif
