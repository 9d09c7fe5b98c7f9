#include "verif_tf.h"

#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"

namespace tensorflow {
namespace verif {
int table_block_entries = 2;
std::string table_misuse;
std::map<std::string, OpDef>& Ops() {
  static auto* m = new std::map<std::string, OpDef>();
  return *m;
}
std::map<std::string, KernelFactory>& Kernels() {
  static auto* m = new std::map<std::string, KernelFactory>();
  return *m;
}
std::pair<std::string, std::string> OpDefBuilder::Split(const std::string& s) {
  size_t c = s.find(':');
  if (c == std::string::npos) std::abort();
  std::string type = s.substr(c + 1);
  type.erase(0, type.find_first_not_of(' '));
  return {s.substr(0, c), type};
}
absl::Status SetInputs(OpKernelContext* ctx, const std::string& op,
                       const std::vector<std::vector<Tensor>>& args) {
  auto it = Ops().find(op);
  if (it == Ops().end()) return errors::NotFound("no op ", op);
  ctx->op = &it->second;
  if (args.size() != ctx->op->inputs.size())
    return errors::InvalidArgument("wrong number of arguments for ", op);
  for (size_t i = 0; i < args.size(); ++i) {
    ctx->ranges[ctx->op->inputs[i].first] = {
        static_cast<int>(ctx->inputs.size()), static_cast<int>(args[i].size())};
    for (const Tensor& t : args[i]) ctx->inputs.push_back(t);
  }
  return absl::OkStatus();
}
}  // namespace verif

// ---- file system -----------------------------------------------------------
namespace {
std::string Parent(const std::string& f) {
  size_t s = f.rfind('/');
  return s == std::string::npos || s == 0 ? "/" : f.substr(0, s);
}
class MemRandomAccessFile : public RandomAccessFile {
 public:
  MemRandomAccessFile(Env* e, Env::Content c) : e_(e), c_(std::move(c)) {}
  absl::Status Read(uint64_t offset, size_t n, StringPiece* result,
                    char* scratch) const override {
    *result = StringPiece();
    TF_RETURN_IF_ERROR(e_->Fault("read"));
    std::lock_guard<std::recursive_mutex> l(e_->mu);
    if (offset > c_->size()) return errors::OutOfRange("read less bytes");
    size_t got = std::min<uint64_t>(n, c_->size() - offset);
    std::memcpy(scratch, c_->data() + offset, got);
    *result = StringPiece(scratch, got);
    if (got < n) return errors::OutOfRange("read less bytes than requested");
    return absl::OkStatus();
  }

 private:
  Env* e_;
  Env::Content c_;
};
class MemWritableFile : public WritableFile {
 public:
  MemWritableFile(Env* e, Env::Content c) : e_(e), c_(std::move(c)) {}
  absl::Status Append(StringPiece data) override {
    absl::Status s = e_->Fault("append");
    std::lock_guard<std::recursive_mutex> l(e_->mu);
    if (closed_) return errors::FailedPrecondition("file is closed");
    // A failed write leaves part of the data behind.
    c_->append(data.data(), s.ok() ? data.size() : data.size() / 2);
    return s;
  }
  absl::Status Close() override {
    TF_RETURN_IF_ERROR(e_->Fault("close"));
    if (closed_) return errors::FailedPrecondition("file is closed");
    closed_ = true;
    return absl::OkStatus();
  }
  absl::Status Flush() override { return e_->Fault("flush"); }
  absl::Status Sync() override { return e_->Fault("flush"); }
  absl::Status Tell(int64_t* position) override {
    TF_RETURN_IF_ERROR(e_->Fault("tell"));
    std::lock_guard<std::recursive_mutex> l(e_->mu);
    *position = static_cast<int64_t>(c_->size());
    return absl::OkStatus();
  }

 private:
  Env* e_;
  Env::Content c_;
  bool closed_ = false;
};
}  // namespace

Env* Env::Default() {
  static Env* e = new Env;
  return e;
}
absl::Status Env::Fault(const std::string& kind) {
  std::function<void(const std::string&)> before;
  {
    std::lock_guard<std::recursive_mutex> l(mu);
    before = faults.before;
  }
  if (before) before(kind);
  std::lock_guard<std::recursive_mutex> l(mu);
  int n = ++faults.seen[kind];
  auto it = faults.fail.find(kind);
  if (it != faults.fail.end() && it->second.count(n)) {
    faults.any_failed = true;
    return errors::Unavailable("injected fault: ", kind, " #", n);
  }
  return absl::OkStatus();
}
absl::Status Env::GetFileSize(const std::string& f, uint64_t* size) {
  TF_RETURN_IF_ERROR(Fault("size"));
  std::lock_guard<std::recursive_mutex> l(mu);
  auto it = files.find(f);
  if (it == files.end()) return errors::NotFound(f, "; No such file");
  *size = it->second->size();
  return absl::OkStatus();
}
absl::Status Env::NewRandomAccessFile(const std::string& f,
                                      std::unique_ptr<RandomAccessFile>* out) {
  TF_RETURN_IF_ERROR(Fault("open"));
  std::lock_guard<std::recursive_mutex> l(mu);
  auto it = files.find(f);
  if (it == files.end()) return errors::NotFound(f, "; No such file");
  *out = std::make_unique<MemRandomAccessFile>(this, it->second);
  return absl::OkStatus();
}
absl::Status Env::NewAppendableFile(const std::string& f,
                                    std::unique_ptr<WritableFile>* out) {
  TF_RETURN_IF_ERROR(Fault("open"));
  std::lock_guard<std::recursive_mutex> l(mu);
  if (!files.count(f)) files[f] = std::make_shared<std::string>();
  *out = std::make_unique<MemWritableFile>(this, files[f]);
  return absl::OkStatus();
}
absl::Status Env::NewWritableFile(const std::string& f,
                                  std::unique_ptr<WritableFile>* out) {
  TF_RETURN_IF_ERROR(Fault("open"));
  std::lock_guard<std::recursive_mutex> l(mu);
  // An existing file is truncated, which its other handles see too.
  if (!files.count(f)) files[f] = std::make_shared<std::string>();
  files[f]->clear();
  *out = std::make_unique<MemWritableFile>(this, files[f]);
  return absl::OkStatus();
}
absl::Status Env::FileExists(const std::string& f) {
  TF_RETURN_IF_ERROR(Fault("exists"));
  std::lock_guard<std::recursive_mutex> l(mu);
  if (files.count(f) || dirs.count(f)) return absl::OkStatus();
  return errors::NotFound(f, " not found");
}
absl::Status Env::IsDirectory(const std::string& f) {
  TF_RETURN_IF_ERROR(Fault("isdir"));
  std::lock_guard<std::recursive_mutex> l(mu);
  if (dirs.count(f)) return absl::OkStatus();
  if (files.count(f)) return errors::FailedPrecondition(f, " is not a directory");
  return errors::NotFound(f, " not found");
}
absl::Status Env::DeleteFile(const std::string& f) {
  TF_RETURN_IF_ERROR(Fault("delete"));
  std::lock_guard<std::recursive_mutex> l(mu);
  if (!files.count(f)) {
    if (dirs.count(f)) return errors::FailedPrecondition(f, " is a directory");
    return errors::NotFound(f, " not found");
  }
  files.erase(f);
  return absl::OkStatus();
}
absl::Status Env::DeleteDir(const std::string& f) {
  TF_RETURN_IF_ERROR(Fault("delete"));
  std::lock_guard<std::recursive_mutex> l(mu);
  if (!dirs.count(f)) return errors::NotFound(f, " not found");
  for (const auto& p : files)
    if (Parent(p.first) == f) return errors::FailedPrecondition("not empty");
  for (const auto& d : dirs)
    if (d != f && Parent(d) == f) return errors::FailedPrecondition("not empty");
  dirs.erase(f);
  return absl::OkStatus();
}
absl::Status Env::DeleteRecursively(const std::string& f, int64_t* uf,
                                    int64_t* ud) {
  *uf = *ud = 0;
  absl::Status s = Fault("delete");
  if (!s.ok()) {
    *ud = 1;
    return s;
  }
  std::lock_guard<std::recursive_mutex> l(mu);
  if (!dirs.count(f) && !files.count(f)) {
    *ud = 1;
    return errors::NotFound(f, " not found");
  }
  std::string under = f + "/";
  for (auto it = files.begin(); it != files.end();)
    it = it->first == f || it->first.compare(0, under.size(), under) == 0
             ? files.erase(it)
             : std::next(it);
  for (auto it = dirs.begin(); it != dirs.end();)
    it = *it == f || it->compare(0, under.size(), under) == 0 ? dirs.erase(it)
                                                              : std::next(it);
  return absl::OkStatus();
}
absl::Status Env::RenameFile(const std::string& from, const std::string& to) {
  TF_RETURN_IF_ERROR(Fault("rename"));
  std::lock_guard<std::recursive_mutex> l(mu);
  auto it = files.find(from);
  if (it == files.end()) return errors::NotFound(from, " not found");
  if (from == to) return absl::OkStatus();
  files[to] = it->second;
  files.erase(from);
  return absl::OkStatus();
}
absl::Status Env::CopyFile(const std::string& from, const std::string& to) {
  TF_RETURN_IF_ERROR(Fault("copy"));
  std::lock_guard<std::recursive_mutex> l(mu);
  auto it = files.find(from);
  if (it == files.end()) return errors::NotFound(from, " not found");
  files[to] = std::make_shared<std::string>(*it->second);
  return absl::OkStatus();
}
absl::Status Env::CreateDir(const std::string& f) {
  std::lock_guard<std::recursive_mutex> l(mu);
  if (!dirs.insert(f).second) return errors::AlreadyExists(f);
  return absl::OkStatus();
}
absl::Status Env::RecursivelyCreateDir(const std::string& f) {
  std::lock_guard<std::recursive_mutex> l(mu);
  for (std::string d = f; d != "/"; d = Parent(d)) dirs.insert(d);
  return absl::OkStatus();
}
absl::Status Env::GetChildren(const std::string& f,
                              std::vector<std::string>* out) {
  std::lock_guard<std::recursive_mutex> l(mu);
  for (const auto& p : files)
    if (Parent(p.first) == f) out->push_back(p.first.substr(f.size() + 1));
  for (const auto& d : dirs)
    if (d != f && Parent(d) == f) out->push_back(d.substr(f.size() + 1));
  return absl::OkStatus();
}
bool Env::LocalTempFilename(std::string* f) {
  std::lock_guard<std::recursive_mutex> l(mu);
  *f = absl::StrCat("/tmp/local", ++next_temp);
  return true;
}

// ---- tables ----------------------------------------------------------------
namespace crc32c {
uint32_t Extend(uint32_t crc, const char* buf, size_t size) {
  static const std::vector<uint32_t>* table = [] {
    auto* t = new std::vector<uint32_t>(256);
    for (uint32_t i = 0; i < 256; ++i) {
      uint32_t c = i;
      for (int k = 0; k < 8; ++k) c = c & 1 ? 0x82f63b78u ^ (c >> 1) : c >> 1;
      (*t)[i] = c;
    }
    return t;
  }();
  crc = ~crc;
  for (size_t i = 0; i < size; ++i)
    crc = (*table)[(crc ^ static_cast<uint8_t>(buf[i])) & 0xff] ^ (crc >> 8);
  return ~crc;
}
}  // namespace crc32c

namespace table {
namespace {
constexpr uint64_t kMagic = 0xdb4775248b80fb57ull;
constexpr size_t kFooter = 24;
void PutU32(std::string* s, uint32_t v) {
  s->append(reinterpret_cast<const char*>(&v), 4);
}
void PutU64(std::string* s, uint64_t v) {
  s->append(reinterpret_cast<const char*>(&v), 8);
}
uint32_t GetU32(const char* p) {
  uint32_t v;
  std::memcpy(&v, p, 4);
  return v;
}
uint64_t GetU64(const char* p) {
  uint64_t v;
  std::memcpy(&v, p, 8);
  return v;
}
// Reads a block and its checksum.
absl::Status ReadBlock(RandomAccessFile* f, uint64_t offset, uint64_t size,
                       std::string* out) {
  if (size > (1u << 26)) return errors::DataLoss("block too large");
  std::string scratch(size + 4, 0);
  StringPiece r;
  TF_RETURN_IF_ERROR(f->Read(offset, size + 4, &r, &scratch[0]));
  if (r.size() != size + 4) return errors::DataLoss("truncated block read");
  if (crc32c::Value(r.data(), size) != GetU32(r.data() + size))
    return errors::DataLoss("block checksum mismatch");
  out->assign(r.data(), size);
  return absl::OkStatus();
}
class TableIterator : public Iterator {
 public:
  explicit TableIterator(const Table* t) : t_(t) {}
  bool Valid() const override { return pos_ < entries_.size(); }
  void SeekToFirst() override {
    block_ = 0;
    Load();
  }
  void Seek(const StringPiece& target) override {
    for (SeekToFirst(); Valid() && key() < target;) Next();
  }
  void Next() override {
    if (!Valid()) std::abort();
    if (++pos_ == entries_.size()) {
      ++block_;
      Load();
    }
  }
  StringPiece key() const override {
    if (!Valid()) std::abort();
    return entries_[pos_].first;
  }
  StringPiece value() const override {
    if (!Valid()) std::abort();
    return entries_[pos_].second;
  }
  absl::Status status() const override { return status_; }

 private:
  // As in the original, a block that cannot be read is noted and skipped.
  void Load() {
    entries_.clear();
    pos_ = 0;
    for (; block_ < t_->blocks_.size(); ++block_) {
      std::string b;
      absl::Status s = ReadBlock(t_->file_, t_->blocks_[block_].offset,
                                 t_->blocks_[block_].size, &b);
      if (!s.ok()) {
        if (status_.ok()) status_ = s;
        continue;
      }
      for (size_t p = 0; p + 8 <= b.size();) {
        uint32_t kn = GetU32(&b[p]), vn = GetU32(&b[p + 4]);
        entries_.emplace_back(b.substr(p + 8, kn), b.substr(p + 8 + kn, vn));
        p += 8 + kn + vn;
      }
      if (!entries_.empty()) return;
    }
  }
  const Table* t_;
  size_t block_ = 0, pos_ = 0;
  std::vector<std::pair<std::string, std::string>> entries_;
  absl::Status status_;
};
}  // namespace

void TableBuilder::Write(const std::string& s) {
  std::string with = s;
  PutU32(&with, crc32c::Value(s.data(), s.size()));
  if (status_.ok()) status_ = file_->Append(with);
  if (status_.ok()) offset_ += with.size();
}
void TableBuilder::Add(const StringPiece& key, const StringPiece& value) {
  if (entries_ > 0 && !(std::string(key) > last_))
    verif::table_misuse = "table keys added out of order";
  last_ = std::string(key);
  ++entries_;
  PutU32(&block_, key.size());
  PutU32(&block_, value.size());
  block_.append(key.data(), key.size());
  block_.append(value.data(), value.size());
  if (++in_block_ >= verif::table_block_entries) Flush();
}
void TableBuilder::Flush() {
  if (in_block_ == 0) return;
  PutU64(&index_, offset_);
  PutU64(&index_, block_.size());
  Write(block_);
  block_.clear();
  in_block_ = 0;
}
absl::Status TableBuilder::Finish() {
  Flush();
  uint64_t at = offset_, n = index_.size();
  Write(index_);
  std::string footer;
  PutU64(&footer, at);
  PutU64(&footer, n);
  PutU64(&footer, kMagic);
  if (status_.ok()) status_ = file_->Append(footer);
  if (status_.ok()) offset_ += footer.size();
  return status_;
}
absl::Status Table::Open(const Options&, RandomAccessFile* file, uint64_t size,
                         Table** out) {
  *out = nullptr;
  if (size < kFooter)
    return errors::DataLoss("file is too short to be an sstable");
  char scratch[kFooter];
  StringPiece f;
  TF_RETURN_IF_ERROR(file->Read(size - kFooter, kFooter, &f, scratch));
  if (f.size() != kFooter || GetU64(f.data() + 16) != kMagic)
    return errors::DataLoss("not an sstable (bad magic number)");
  std::string index;
  TF_RETURN_IF_ERROR(
      ReadBlock(file, GetU64(f.data()), GetU64(f.data() + 8), &index));
  auto* t = new Table;
  t->file_ = file;
  for (size_t p = 0; p + 16 <= index.size(); p += 16)
    t->blocks_.push_back({GetU64(&index[p]), GetU64(&index[p + 8])});
  *out = t;
  return absl::OkStatus();
}
Iterator* Table::NewIterator() const { return new TableIterator(this); }
}  // namespace table

// ---- checkpoints -----------------------------------------------------------
absl::Status TensorSlice::Parse(const std::string& s, TensorSlice* out) {
  *out = TensorSlice();
  if (s.empty()) return absl::OkStatus();
  for (absl::string_view item : absl::StrSplit(s, ':')) {
    if (item == "-") {
      out->Add(0, -1);
      continue;
    }
    std::vector<std::string> sl = absl::StrSplit(item, ',');
    int64_t start, len;
    if (sl.size() != 2 || !absl::SimpleAtoi(sl[0], &start) ||
        !absl::SimpleAtoi(sl[1], &len) || start < 0 || len <= 0)
      return errors::InvalidArgument("Expected non-negative start and positive "
                                     "length but got: ", s);
    out->Add(start, len);
  }
  return absl::OkStatus();
}
void TensorSlice::AsProto(TensorSliceProto* p) const {
  for (int d = 0; d < dims(); ++d) {
    TensorSliceProto::Extent* e = p->add_extent();
    if (!IsFullAt(d)) {
      e->set_start(start_[d]);
      e->set_length(len_[d]);
    }
  }
}
absl::Status TensorSlice::SliceTensorShape(const TensorShape& shape,
                                           TensorShape* out) const {
  out->Clear();
  if (shape.dims() != dims())
    return errors::Internal("Mismatching ranks: shape = ", shape.DebugString());
  for (int d = 0; d < dims(); ++d) {
    if (IsFullAt(d)) {
      out->AddDim(shape.dim_size(d));
    } else if (start_[d] + len_[d] <= shape.dim_size(d)) {
      out->AddDim(len_[d]);
    } else {
      out->Clear();
      return errors::Internal("Extent in dimension ", d, " out of bounds");
    }
  }
  return absl::OkStatus();
}

namespace checkpoint {
const char kSavedTensorSlicesKey[] = "";
std::string EncodeTensorNameSlice(const std::string& name,
                                  const TensorSlice& slice) {
  // Order-preserving, like the original: names sort as they are.
  std::string out(1, '\0');
  for (char c : name) {
    out += c;
    if (c == '\0') out += '\xff';
  }
  out += '\0';
  out += '\1';
  auto num = [&](int64_t v) {
    uint64_t u = static_cast<uint64_t>(v) ^ (1ull << 63);
    for (int i = 7; i >= 0; --i) out += static_cast<char>(u >> (8 * i));
  };
  num(slice.dims());
  for (int d = 0; d < slice.dims(); ++d) {
    num(slice.start(d));
    num(slice.length(d));
  }
  return out;
}
absl::Status ParseShapeAndSlice(const std::string& spec, TensorShape* shape,
                                TensorSlice* slice, TensorShape* shape_slice) {
  shape->Clear();
  // Syntax: dim0 dim1 dim2 ... <slice string>
  std::vector<std::string> splits =
      absl::StrSplit(spec, ' ', absl::SkipEmpty());
  if (splits.size() < 2)
    return errors::InvalidArgument(
        "Need least two elements in shape_and_slice specification: ", spec);
  TF_RETURN_IF_ERROR(TensorSlice::Parse(splits.back(), slice));
  splits.pop_back();
  for (const auto& s : splits) {
    int64_t dim;
    if (!absl::SimpleAtoi(s, &dim))
      return errors::InvalidArgument("Non numerical dimension in ", spec);
    if (dim < 0)
      return errors::InvalidArgument("Dimension must be non-negative: ", spec);
    shape->AddDim(dim);
  }
  return slice->SliceTensorShape(*shape, shape_slice);
}

TensorSliceWriter::TensorSliceWriter(const std::string& filename,
                                     CreateBuilderFunction f)
    : filename_(filename), create_builder_(std::move(f)) {
  Env* env = Env::Default();
  if (!env->CanCreateTempFile(filename, &use_temp_).ok()) use_temp_ = true;
  data_filename_ = filename_;
  if (use_temp_) {
    std::lock_guard<std::recursive_mutex> l(env->mu);
    absl::StrAppend(&data_filename_, ".tempstate", ++env->next_temp);
  }
  auto* v = sts_.mutable_meta()->mutable_versions();
  v->set_producer(TF_CHECKPOINT_VERSION);
  v->set_min_consumer(TF_CHECKPOINT_VERSION_MIN_CONSUMER);
}
absl::Status TensorSliceWriter::AddSlice(const std::string& name,
                                         const TensorShape& shape,
                                         const TensorSlice& slice,
                                         const TensorProto& data) {
  if (shape.dims() != slice.dims())
    return errors::Internal("Incompatible tensor shape and slice");
  auto it = index_.find(name);
  if (it == index_.end()) {
    it = index_.emplace(name, sts_.meta().tensor_size()).first;
    auto* m = sts_.mutable_meta()->add_tensor();
    m->set_name(name);
    shape.AsProto(m->mutable_shape());
    m->set_type(data.dtype());
  } else {
    const auto& m = sts_.meta().tensor(it->second);
    if (!shape.IsSameSize(TensorShape(m.shape())))
      return errors::Internal("Mismatching shapes for ", name);
    if (m.type() != data.dtype())
      return errors::Internal("Mismatching types for ", name);
  }
  slice.AsProto(sts_.mutable_meta()->mutable_tensor(it->second)->add_slice());
  SavedTensorSlices sts;
  sts.mutable_data()->set_name(name);
  slice.AsProto(sts.mutable_data()->mutable_slice());
  *sts.mutable_data()->mutable_data() = data;
  data_.insert({EncodeTensorNameSlice(name, slice), sts.SerializeAsString()});
  return absl::OkStatus();
}
absl::Status TensorSliceWriter::Finish() {
  Builder* b = nullptr;
  absl::Status s = create_builder_(data_filename_, &b);
  if (!s.ok()) {
    delete b;
    return s;
  }
  std::unique_ptr<Builder> builder(b);
  builder->Add(kSavedTensorSlicesKey, sts_.SerializeAsString());
  for (const auto& x : data_) builder->Add(x.first, x.second);
  int64_t file_size;
  s = builder->Finish(&file_size);
  if (s.ok()) {
    if (use_temp_) s = Env::Default()->RenameFile(data_filename_, filename_);
  } else if (use_temp_) {
    Env::Default()->DeleteFile(data_filename_).IgnoreError();
  }
  return s;
}

namespace {
class PlainBuilder : public TensorSliceWriter::Builder {
 public:
  PlainBuilder(std::unique_ptr<WritableFile> f)
      : file_(std::move(f)), b_(table::Options(), file_.get()) {}
  void Add(StringPiece key, StringPiece value) override { b_.Add(key, value); }
  absl::Status Finish(int64_t* file_size) override {
    *file_size = -1;
    absl::Status s = b_.Finish();
    if (s.ok()) s = file_->Close();
    if (s.ok()) *file_size = b_.FileSize();
    return s;
  }

 private:
  std::unique_ptr<WritableFile> file_;
  table::TableBuilder b_;
};
}  // namespace
absl::Status CreateTableTensorSliceBuilder(
    const std::string& name, TensorSliceWriter::Builder** builder) {
  *builder = nullptr;
  std::unique_ptr<WritableFile> f;
  TF_RETURN_IF_ERROR(Env::Default()->NewWritableFile(name, &f));
  *builder = new PlainBuilder(std::move(f));
  return absl::OkStatus();
}
}  // namespace checkpoint

// ---- kernel contexts -------------------------------------------------------
absl::Status OpKernelContext::input(StringPiece name, const Tensor** out) const {
  auto it = ranges.find(std::string(name));
  if (it == ranges.end())
    return errors::InvalidArgument("Unknown input name: ", name);
  if (it->second.second != 1)
    return errors::InvalidArgument("OpKernel used list-valued input name '",
                                   name, "' when single-valued input was expected");
  *out = &inputs[it->second.first];
  return absl::OkStatus();
}
absl::Status OpKernelContext::input_list(StringPiece name,
                                         OpInputList* out) const {
  auto it = ranges.find(std::string(name));
  if (it == ranges.end())
    return errors::InvalidArgument("Unknown input name: ", name);
  *out = OpInputList(inputs.data() + it->second.first, it->second.second);
  return absl::OkStatus();
}
absl::Status OpKernelContext::allocate_output(int i, const TensorShape& shape,
                                              Tensor** out) {
  static const auto* types = new std::map<std::string, DataType>{
      {"string", DT_STRING}, {"int64", DT_INT64},     {"int32", DT_INT32},
      {"uint32", DT_UINT32}, {"float", DT_FLOAT},     {"float32", DT_FLOAT},
      {"bool", DT_BOOL},     {"variant", DT_VARIANT}, {"uint64", DT_UINT64}};
  if (i < 0 || i >= static_cast<int>(op->outputs.size()))
    return errors::Internal("no output ", i);
  auto it = types->find(op->outputs[i].second);
  if (it == types->end()) return errors::Internal("unknown output type");
  outputs.resize(op->outputs.size());
  outputs[i] = std::make_unique<Tensor>(it->second, shape);
  *out = outputs[i].get();
  return absl::OkStatus();
}
absl::Status OpKernelContext::allocate_output(StringPiece name,
                                              const TensorShape& shape,
                                              Tensor** out) {
  for (size_t i = 0; i < op->outputs.size(); ++i)
    if (op->outputs[i].first == name) return allocate_output(i, shape, out);
  return errors::InvalidArgument("Unknown output name: ", name);
}
void OpKernelContext::set_output(int i, const Tensor& t) {
  outputs.resize(op->outputs.size());
  outputs[i] = std::make_unique<Tensor>(t);
}
}  // namespace tensorflow
