#ifndef VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_
#define VERIF_SHIM_PROTOSTORE_FILE_STORAGE_H_
#include <sys/stat.h>
#include <cerrno>
#include <cstdint>
#include <functional>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/str_cat.h"
namespace protostore {

// Fault injection for the harnesses: called before every operation with
// "size" / "read" / "write" and the path; a non-OK status is returned as is.
using FaultHook = std::function<absl::Status(const char* op,
                                             const std::string& path)>;
inline FaultHook& fault_hook() {
  static FaultHook hook;
  return hook;
}

class FileStorage {
 public:
  virtual ~FileStorage() = default;
  virtual absl::StatusOr<int64_t> GetFileSize(const std::string& path) const {
    if (fault_hook()) {
      absl::Status s = fault_hook()("size", path);
      if (!s.ok()) return s;
    }
    struct stat st;
    if (stat(path.c_str(), &st) != 0) {
      if (errno == ENOENT) return absl::NotFoundError(path);
      return absl::InternalError(absl::StrCat("stat failed: ", path));
    }
    return static_cast<int64_t>(st.st_size);
  }
};
}  // namespace protostore
#endif
