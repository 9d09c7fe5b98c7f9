// LIBS: fcp_tfops
// F01: slices appended to a file in any number of steps merge into one
// checkpoint that holds every slice exactly once, or the merge fails.
#include <atomic>
#include <thread>

#include "tfops.h"

using pbt::Case;
using pbt::Src;
using namespace tfops;

namespace {

struct Slice {
  std::vector<std::pair<int64_t, int64_t>> extent;  // length -1: whole dimension
  std::string data;                   // raw bytes of numbers
  std::vector<std::string> strings;   // or the strings
};
struct Saved {
  tf::DataType type;
  std::vector<int64_t> shape;
  std::vector<Slice> slices;
};
using Chunk = std::map<std::string, Saved>;

const std::vector<tf::DataType> kTypes = {
    tf::DT_INT32, tf::DT_FLOAT, tf::DT_STRING, tf::DT_INT64, tf::DT_DOUBLE,
    tf::DT_UINT8, tf::DT_BOOL,  tf::DT_INT16,  tf::DT_INT8,  tf::DT_UINT16};

struct Append {
  Chunk chunk;
  std::vector<std::string> names, specs;
  std::vector<tf::Tensor> data;
};

tf::Tensor RandomTensor(Src& s, tf::DataType type, const std::vector<int64_t>& shape) {
  tf::Tensor t(type, tf::TensorShape(shape));
  if (type == tf::DT_STRING) {
    for (auto& v : t.flat<tf::tstring>()) v = s.bytes(4);
  } else {
    auto d = t.tensor_data();
    std::string b = s.fixed_bytes(d.size());
    if (type == tf::DT_BOOL)
      for (char& c : b) c &= 1;
    std::memcpy(const_cast<char*>(d.data()), b.data(), b.size());
  }
  return t;
}
Slice ToSlice(const tf::Tensor& t, std::vector<std::pair<int64_t, int64_t>> extent) {
  Slice out;
  out.extent = std::move(extent);
  if (t.dtype() == tf::DT_STRING) {
    for (const auto& v : t.flat<tf::tstring>()) out.strings.push_back(v);
  } else {
    out.data = std::string(t.tensor_data());
  }
  return out;
}

// One append of tensors with the given names, as whole tensors or as slices.
Append MakeAppend(Src& s, const std::vector<std::string>& names) {
  Append a;
  std::vector<std::tuple<std::string, std::string, tf::Tensor>> items;
  for (const std::string& name : names) {
    Saved sv;
    sv.type = s.pick(kTypes);
    int dims = s.weighted({2, 3, 2});
    for (int d = 0; d < dims; ++d) sv.shape.push_back(s.range(1, 4));
    if (dims > 0 && s.chance(1, 3)) {
      // Cut the first dimension into slices.
      int64_t at = 0;
      while (at < sv.shape[0]) {
        int64_t len = s.range(1, sv.shape[0] - at);
        std::vector<int64_t> shape = sv.shape;
        shape[0] = len;
        std::string spec;
        for (int64_t d : sv.shape) absl::StrAppend(&spec, d, " ");
        absl::StrAppend(&spec, at, ",", len);
        std::vector<std::pair<int64_t, int64_t>> ext = {{at, len}};
        for (int d = 1; d < dims; ++d) {
          spec += ":-";
          ext.push_back({0, -1});
        }
        tf::Tensor t = RandomTensor(s, sv.type, shape);
        sv.slices.push_back(ToSlice(t, ext));
        items.emplace_back(name, spec, t);
        at += len;
      }
    } else {
      tf::Tensor t = RandomTensor(s, sv.type, sv.shape);
      sv.slices.push_back(
          ToSlice(t, std::vector<std::pair<int64_t, int64_t>>(dims, {0, -1})));
      items.emplace_back(name, "", t);
    }
    a.chunk[name] = sv;
  }
  // The writer may be given the tensors in any order.
  s.shuffle(&items);
  for (auto& i : items) {
    a.names.push_back(std::get<0>(i));
    a.specs.push_back(std::get<1>(i));
    a.data.push_back(std::get<2>(i));
  }
  return a;
}
absl::Status DoAppend(const std::string& file, const Append& a) {
  return Run("AppendSlices",
             {{Str(file)}, {StrVec(a.names)}, {StrVec(a.specs)}, a.data})
      ->status;
}
absl::Status DoMerge(const std::string& file) {
  return Run("MergeAppendedSlices", {{Str(file)}})->status;
}

// Reads a checkpoint back; an error if the file is not a complete one.
absl::Status ReadBack(const std::string& file, Chunk* out) {
  tf::Env* env = tf::Env::Default();
  uint64_t size;
  TF_RETURN_IF_ERROR(env->GetFileSize(file, &size));
  std::unique_ptr<tf::RandomAccessFile> f;
  TF_RETURN_IF_ERROR(env->NewRandomAccessFile(file, &f));
  tf::table::Table* raw;
  TF_RETURN_IF_ERROR(tf::table::Table::Open({}, f.get(), size, &raw));
  std::unique_ptr<tf::table::Table> table(raw);
  std::unique_ptr<tf::table::Iterator> it(table->NewIterator());
  it->SeekToFirst();
  if (!it->Valid() || it->key() != "") return absl::DataLossError("no metadata");
  tf::SavedTensorSlices meta;
  if (!meta.ParseFromString(std::string(it->value())))
    return absl::DataLossError("bad metadata");
  if (meta.meta().versions().producer() != TF_CHECKPOINT_VERSION)
    return absl::DataLossError("no version");
  std::map<std::string, tf::SavedTensorSlices> data;
  std::string last;
  for (it->Next(); it->Valid(); it->Next()) {
    std::string key(it->key());
    if (!(key > last)) return absl::DataLossError("entries out of order");
    last = key;
    tf::SavedTensorSlices d;
    if (!d.ParseFromString(std::string(it->value())))
      return absl::DataLossError("bad entry");
    data[key] = d;
  }
  TF_RETURN_IF_ERROR(it->status());
  for (const auto& t : meta.meta().tensor()) {
    if (out->count(t.name())) return absl::DataLossError("tensor listed twice");
    Saved sv;
    sv.type = t.type();
    for (const auto& d : t.shape().dim()) sv.shape.push_back(d.size());
    for (const auto& sl : t.slice()) {
      Slice x;
      tf::TensorSlice ts;
      for (const auto& e : sl.extent()) {
        int64_t len =
            e.has_length_case() == tf::TensorSliceProto::Extent::kLength ? e.length() : -1;
        x.extent.push_back({e.start(), len});
        ts.Add(e.start(), len);
      }
      auto d = data.find(tf::checkpoint::EncodeTensorNameSlice(t.name(), ts));
      if (d == data.end()) return absl::DataLossError("slice without data");
      if (d->second.data().name() != t.name())
        return absl::DataLossError("data of another tensor");
      x.data = d->second.data().data().tensor_content();
      for (const auto& v : d->second.data().data().string_val()) x.strings.push_back(v);
      data.erase(d);
      sv.slices.push_back(x);
    }
    (*out)[t.name()] = sv;
  }
  if (!data.empty()) return absl::DataLossError("data of no tensor");
  return absl::OkStatus();
}
std::string Show(const Chunk& c) {
  std::ostringstream os;
  for (const auto& p : c) {
    os << " " << pbt::Quote(p.first, 12) << ":" << tf::DataType_Name(p.second.type);
    auto slices = p.second.slices;
    std::sort(slices.begin(), slices.end(),
              [](const Slice& a, const Slice& b) { return a.extent < b.extent; });
    for (int64_t d : p.second.shape) os << "x" << d;
    for (const auto& s : slices) {
      os << "/";
      for (const auto& e : s.extent) os << e.first << "+" << e.second << ",";
      os << "=" << pbt::Hex(s.data);
      for (const auto& v : s.strings) os << "'" << pbt::Hex(v) << "'";
    }
  }
  return os.str();
}
void ExpectCheckpoint(const std::string& file, const std::vector<Chunk>& chunks,
                      const std::string& what) {
  Chunk want, got;
  for (const auto& c : chunks) want.insert(c.begin(), c.end());
  absl::Status s = ReadBack(file, &got);
  PBT_CHECK(s.ok(), what << ": the result is not a checkpoint: " << s.ToString());
  PBT_CHECK(Show(got) == Show(want), what << ": checkpoint holds" << Show(got)
                                          << " but expected" << Show(want));
}

std::vector<std::string> TakeNames(Src& s, std::set<std::string>* used, int n,
                                   bool fresh) {
  std::vector<std::string> out;
  for (int i = 0; i < n; ++i) {
    std::string name = s.str(3, "ab/z");
    if (s.chance(1, 12)) name += std::string("\0k", 2);
    if (s.chance(1, 12)) name += "\xc3\xa9";
    while (std::count(out.begin(), out.end(), name) || (fresh && used->count(name)))
      name += "ab"[s.draw(2)];
    out.push_back(name);
  }
  for (const auto& x : out) used->insert(x);
  return out;
}
bool HasDuplicate(const std::vector<Chunk>& chunks) {
  std::set<std::string> seen;
  for (const auto& c : chunks)
    for (const auto& p : c)
      if (!seen.insert(p.first).second) return true;
  return false;
}
void CheckTables() {
  PBT_CHECK(tf::verif::table_misuse.empty(), tf::verif::table_misuse);
}

// Appends, merges and deletes on a few files, in order.
void Sequence(Src& s, Case& c) {
  tf::Env* env = ResetEnv();
  tf::verif::table_block_entries = 1 + s.draw(3);
  struct File {
    std::vector<Chunk> chunks;
    std::set<std::string> names;
    bool merged = false;
  };
  std::map<std::string, File> files;
  const std::vector<std::string> paths = {"/d/a", "/d/ab", "b.ckp"};
  int steps = s.range(1, 12);
  for (int i = 0; i < steps; ++i) {
    const std::string path = s.pick(paths);
    bool exists = files.count(path) > 0;
    int op = s.weighted({8, 3, 1, 2});
    if (exists && files[path].merged) op = 2;
    if (op == 0) {
      File& f = files[path];
      Append a = MakeAppend(s, TakeNames(s, &f.names, s.small(0, 4), !s.chance(1, 12)));
      absl::Status st = DoAppend(path, a);
      c.log << "append " << path << Show(a.chunk) << "; ";
      PBT_CHECK(st.ok(), "append failed: " << st.ToString());
      f.chunks.push_back(a.chunk);
    } else if (op == 1) {
      absl::Status st = DoMerge(path);
      c.log << "merge " << path << " -> " << st.ToString().substr(0, 60) << "; ";
      if (!exists) {
        PBT_CHECK(absl::IsNotFound(st), "merge of a missing file: " << st.ToString());
        c.label("merge missing");
        continue;
      }
      if (HasDuplicate(files[path].chunks)) {
        PBT_CHECK(absl::IsInvalidArgument(st),
                  "merge with a name saved twice: " << st.ToString());
        c.label("merge duplicate");
        env->files.erase(path);
        files.erase(path);
        continue;
      }
      PBT_CHECK(st.ok(), "merge failed: " << st.ToString());
      CheckTables();
      ExpectCheckpoint(path, files[path].chunks, "after merging " + path);
      c.label(absl::StrCat("merged ", std::min<size_t>(files[path].chunks.size(), 4)));
      c.nontrivial(files[path].chunks.size() >= 2);
      files[path].merged = true;
    } else if (op == 2) {
      absl::Status st = Run("DeleteFile", {{Str(path)}})->status;
      c.log << "delete " << path << "; ";
      PBT_CHECK(st.ok(), "delete failed: " << st.ToString());
      files.erase(path);
    } else {
      // A call with wrong arguments changes nothing.
      Append a = MakeAppend(s, TakeNames(s, &files[path].names, s.range(1, 3), true));
      if (!exists) files.erase(path);
      size_t k = s.draw(a.names.size());
      std::vector<std::string> file_names = {path};
      absl::StatusCode want = absl::StatusCode::kInvalidArgument;
      switch (s.draw(6)) {
        case 0: a.specs.pop_back(); break;
        case 1: a.data.pop_back(); break;
        case 2: a.specs[k] = s.of<std::string>({"x", "2", "a -", "2 0,0", "2 -1,1"}); break;
        case 3:
          a.specs[k] = "9 9 9 -:-:-";
          if (a.data[k].dims() > 0 && s.chance(2, 3)) {
            // As many dimensions as the tensor, but another size.
            std::string slice;
            a.specs[k].clear();
            int other = s.draw(a.data[k].dims());
            for (int d = 0; d < a.data[k].dims(); ++d) {
              int64_t size = a.data[k].dim_size(d);
              if (d == other) size += size == 1 || s.flip() ? 1 : -1;
              absl::StrAppend(&a.specs[k], size, " ");
              absl::StrAppend(&slice, d ? ":" : "", "-");
            }
            a.specs[k] += slice;
          }
          break;
        case 4:
          a.data[k] = tf::Tensor(tf::DT_UINT32, tf::TensorShape({2}));
          a.specs[k] = "";
          want = absl::StatusCode::kUnimplemented;
          break;
        default:
          file_names = s.flip() ? std::vector<std::string>{}
                                : std::vector<std::string>{path, "/d/c"};
      }
      absl::Status st =
          Run("AppendSlices",
              {{StrVec(file_names)}, {StrVec(a.names)}, {StrVec(a.specs)}, a.data})
              ->status;
      c.log << "bad append " << path << " -> " << st.ToString().substr(0, 50) << "; ";
      PBT_CHECK(st.code() == want, "wrong arguments: " << st.ToString());
      c.label("bad append");
    }
    for (const auto& p : env->files)
      PBT_CHECK(files.count(p.first), "unexpected file " << p.first << " left behind");
    for (const auto& p : files)
      PBT_CHECK(env->files.count(p.first), "file " << p.first << " is gone");
    for (auto& p : files)
      if (p.second.merged) ExpectCheckpoint(p.first, p.second.chunks, "later");
  }
  CheckTables();
}

// File system calls fail during appends and the merge.
void Faults(Src& s, Case& c) {
  tf::Env* env = ResetEnv();
  tf::verif::table_block_entries = 1 + s.draw(3);
  const std::string path = "/d/a";
  std::set<std::string> used;
  std::vector<Chunk> chunks;
  auto plan = [&] {
    env->faults = tf::verif::Faults();
    int n = s.range(1, 2);
    for (int i = 0; i < n; ++i) {
      std::string kind = s.of<std::string>(
          {"read", "append", "close", "rename", "open", "delete", "size", "tell"});
      env->faults.fail[kind].insert(s.small(1, kind == "read" || kind == "append" ? 14 : 3));
      c.log << "fail " << kind << " #" << *env->faults.fail[kind].rbegin() << " ";
    }
  };
  int n = s.range(1, 4);
  bool lost = false;
  for (int i = 0; i < n; ++i) {
    Append a = MakeAppend(s, TakeNames(s, &used, s.small(0, 3), true));
    bool faulty = s.chance(1, 5);
    if (faulty) plan();
    absl::Status st = DoAppend(path, a);
    bool failed = env->faults.any_failed;
    env->faults = tf::verif::Faults();
    c.log << "append" << Show(a.chunk) << (st.ok() ? "" : " failed") << "; ";
    if (!failed) {
      PBT_CHECK(st.ok(), "append failed without a fault: " << st.ToString());
    } else {
      PBT_CHECK(!st.ok(), "append reported success although a file system call failed");
      c.label("append fault");
      c.nontrivial();
    }
    if (st.ok()) {
      chunks.push_back(a.chunk);
    } else if (!env->files.count(path)) {
      // The earlier slices went with the failed call.
      chunks.clear();
      lost = true;
    }
    // Whatever the failed call left under its temporary name is not ours.
    for (auto it = env->files.begin(); it != env->files.end();)
      it = it->first == path ? std::next(it) : env->files.erase(it);
  }
  if (chunks.empty()) {
    PBT_CHECK(absl::IsNotFound(DoMerge(path)), "merge of a missing file");
    return;
  }
  bool faulty = s.chance(2, 3);
  if (faulty) plan();
  absl::Status st = DoMerge(path);
  bool failed = env->faults.any_failed;
  bool delete_failed = env->faults.fail.count("delete");
  env->faults = tf::verif::Faults();
  c.log << "merge -> " << st.ToString().substr(0, 60);
  if (st.ok()) {
    ExpectCheckpoint(path, chunks,
                     failed ? "merge reported success although a file system call failed"
                            : "merge");
    c.label(failed ? "merge survived" : "merge ok");
  } else {
    PBT_CHECK(failed, "merge failed without a fault: " << st.ToString());
    c.label("merge fault");
    Chunk got;
    if (!delete_failed && env->files.count(path) && ReadBack(path, &got).ok())
      ExpectCheckpoint(path, chunks, "a failed merge left a readable checkpoint");
  }
  c.nontrivial(failed);
  CheckTables();
}

// The file is damaged before the merge.
void Damage(Src& s, Case& c) {
  tf::Env* env = ResetEnv();
  tf::verif::table_block_entries = 1 + s.draw(3);
  const std::string path = "/d/a";
  std::set<std::string> used;
  std::vector<Chunk> chunks;
  std::vector<size_t> ends;
  int n = s.range(1, 4);
  for (int i = 0; i < n; ++i) {
    Append a = MakeAppend(s, TakeNames(s, &used, s.small(1, 3), true));
    PBT_CHECK(DoAppend(path, a).ok(), "append failed");
    c.log << "append" << Show(a.chunk) << "; ";
    chunks.push_back(a.chunk);
    ends.push_back(env->files[path]->size());
  }
  std::string& b = *env->files[path];
  const std::string before = b;
  int kind = s.weighted({3, 3, 2, 2});
  if (kind == 0) {
    b[s.draw(b.size())] ^= 1 << s.draw(8);
  } else if (kind == 1) {
    b.resize(s.chance(1, 3) ? s.pick(ends) : s.draw(b.size()));
  } else if (kind == 2) {
    // Overwrite the start position at the end of a chunk.
    int64_t v = s.chance(1, 3) ? static_cast<int64_t>(s.edgy())
                               : s.range(-4, static_cast<int64_t>(b.size()) + 16);
    if (s.chance(1, 4)) v = s.pick(ends);
    const int64_t end = s.pick(ends);
    // The start of an earlier chunk of the same layout would pass for its own.
    while (v < end &&
           (v == 0 || std::count(ends.begin(), ends.end(), static_cast<size_t>(v))))
      ++v;
    std::memcpy(&b[end - 8], &v, 8);
    c.log << "start position " << v << "; ";
  } else {
    b += s.bytes(24);
  }
  // What is left may still be a proper file of fewer chunks.
  size_t whole = chunks.size() + 1;
  if (b == before) whole = chunks.size();
  for (size_t i = 0; i < ends.size(); ++i)
    if (b == before.substr(0, ends[i])) whole = i + 1;
  if (b.empty()) whole = 0;
  c.log << "damage " << kind << " size " << before.size() << "->" << b.size();
  absl::Status st = DoMerge(path);
  c.log << " merge -> " << st.ToString().substr(0, 60);
  if (whole == 0) {
    PBT_CHECK(st.ok(), "merge of an empty file: " << st.ToString());
    c.label("empty");
  } else if (whole <= chunks.size()) {
    PBT_CHECK(st.ok(), "merge failed: " << st.ToString());
    chunks.resize(whole);
    ExpectCheckpoint(path, chunks, "merge of whole chunks");
    c.label("whole chunks");
  } else {
    PBT_CHECK(!st.ok(), "merge of a damaged file reported success");
    Chunk got;
    PBT_CHECK(!env->files.count(path) || !ReadBack(path, &got).ok(),
              "a damaged file was turned into a checkpoint");
    c.label("damaged");
    c.nontrivial();
  }
}

// Several appends to the same file at once, as a graph may run them.
void Concurrent(Src& s, Case& c) {
  tf::Env* env = ResetEnv();
  tf::verif::table_block_entries = 1 + s.draw(3);
  const std::string path = "/d/a";
  std::set<std::string> used;
  std::vector<Chunk> chunks;
  int before = s.draw(2);
  for (int i = 0; i < before; ++i) {
    Append a = MakeAppend(s, TakeNames(s, &used, s.range(1, 2), true));
    PBT_CHECK(DoAppend(path, a).ok(), "append failed");
    chunks.push_back(a.chunk);
  }
  int n = s.range(2, 3);
  std::vector<Append> appends;
  for (int i = 0; i < n; ++i) {
    appends.push_back(MakeAppend(s, TakeNames(s, &used, s.range(1, 2), true)));
    chunks.push_back(appends.back().chunk);
  }
  c.log << before << " appends, then " << n << " at once";
  std::atomic<int> inside{0}, running{n};
  // Gives the other calls a chance to get in between the steps of this one.
  env->faults.before = [&](const std::string& kind) {
    if (kind != "rename" && kind != "open" && kind != "close") return;
    ++inside;
    for (int i = 0; i < 40 && inside < 2 && running > 1; ++i)
      std::this_thread::sleep_for(std::chrono::microseconds(50));
    --inside;
  };
  std::vector<absl::Status> st(n);
  std::vector<std::thread> threads;
  for (int i = 0; i < n; ++i)
    threads.emplace_back([&, i] {
      st[i] = DoAppend(path, appends[i]);
      --running;
    });
  for (auto& t : threads) t.join();
  env->faults.before = nullptr;
  for (const auto& x : st) PBT_CHECK(x.ok(), "append failed: " << x.ToString());
  absl::Status m = DoMerge(path);
  PBT_CHECK(m.ok(), "merge failed: " << m.ToString());
  ExpectCheckpoint(path, chunks, "after appends at the same time");
  PBT_CHECK(env->files.size() == 1, "files left behind");
  c.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "F01",
      "a merge of at least two appended chunks, or an injected fault or damage "
      "that had an effect, or appends running at the same time",
      {{"sequence", Sequence, 20000, 600000},
       {"faults", Faults, 20000, 600000},
       {"damage", Damage, 20000, 600000},
       {"concurrent", Concurrent, 600, 10000}});
}
