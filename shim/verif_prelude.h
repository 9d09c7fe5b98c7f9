// Force-included: papers over differences between the libraries the tree is
// written for and the packaged ones (absl::string_view is not std's here).
#ifndef VERIF_PRELUDE_H_
#define VERIF_PRELUDE_H_
#include <optional>
#include <string>
#include "absl/strings/string_view.h"
namespace absl {
inline std::string& operator+=(std::string& s, absl::string_view v) {
  return s.append(v.data(), v.size());
}
}  // namespace absl
#endif
