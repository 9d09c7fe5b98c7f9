// Stand-in for protostore's ProtoDataStore: one proto in one checksummed file,
// cached in memory after the first read or write.
#ifndef VERIF_SHIM_PROTOSTORE_PDS_H_
#define VERIF_SHIM_PROTOSTORE_PDS_H_
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <memory>
#include <sstream>
#include <string>
#include <utility>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "protostore/file-storage.h"
namespace protostore {

template <typename T>
class ProtoDataStore {
 public:
  ProtoDataStore(FileStorage& storage, absl::string_view path)
      : storage_(storage), path_(path) {}

  absl::StatusOr<const T*> Read() const {
    if (fault_hook()) {
      absl::Status s = fault_hook()("read", path_);
      if (!s.ok()) return s;
    }
    if (cached_) return cached_.get();
    std::ifstream in(path_, std::ios::binary);
    if (!in) return absl::NotFoundError(path_);
    std::stringstream ss;
    ss << in.rdbuf();
    std::string d = ss.str();
    if (d.size() < 12 || d.compare(0, 4, "PDS1") != 0)
      return absl::InternalError("invalid header");
    uint64_t sum;
    std::memcpy(&sum, d.data() + 4, 8);
    d.erase(0, 12);
    if (sum != Sum(d)) return absl::InternalError("checksum mismatch");
    auto m = std::make_unique<T>();
    if (!m->ParseFromString(d)) return absl::InternalError("parse failed");
    cached_ = std::move(m);
    return cached_.get();
  }

  absl::Status Write(std::unique_ptr<T> m) {
    if (fault_hook()) {
      absl::Status s = fault_hook()("write", path_);
      if (!s.ok()) return s;
    }
    std::string d = m->SerializeAsString();
    uint64_t sum = Sum(d);
    // In place, so that locks held on the file stay meaningful.
    std::ofstream out(path_, std::ios::binary | std::ios::trunc);
    out.write("PDS1", 4);
    out.write(reinterpret_cast<char*>(&sum), 8);
    out.write(d.data(), d.size());
    out.close();
    if (!out) return absl::InternalError("write failed");
    cached_ = std::move(m);
    return absl::OkStatus();
  }

 private:
  static uint64_t Sum(const std::string& d) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : d) h = (h ^ c) * 1099511628211ull;
    return h;
  }
  FileStorage& storage_;
  std::string path_;
  mutable std::unique_ptr<T> cached_;
};
}  // namespace protostore
#endif
