// A minimal CBOR writer, independent of the one under test.
#ifndef VERIF_CBOR_H_
#define VERIF_CBOR_H_
#include <cstdint>
#include <string>
#include <utility>
#include <vector>

namespace cb {
inline std::string Head(int major, uint64_t v) {
  std::string o;
  int m = major << 5;
  auto put = [&](int info, int bytes) {
    o += static_cast<char>(m | info);
    for (int i = bytes - 1; i >= 0; --i) o += static_cast<char>(v >> (8 * i));
  };
  if (v < 24) {
    o += static_cast<char>(m | v);
  } else if (v < 0x100) {
    put(24, 1);
  } else if (v < 0x10000) {
    put(25, 2);
  } else if (v < 0x100000000ull) {
    put(26, 4);
  } else {
    put(27, 8);
  }
  return o;
}
inline std::string Int(int64_t v) {
  return v >= 0 ? Head(0, v) : Head(1, static_cast<uint64_t>(-(v + 1)));
}
inline std::string Bstr(const std::string& s) { return Head(2, s.size()) + s; }
inline std::string Tstr(const std::string& s) { return Head(3, s.size()) + s; }
inline std::string Array(const std::vector<std::string>& v) {
  std::string o = Head(4, v.size());
  for (auto& i : v) o += i;
  return o;
}
using Pairs = std::vector<std::pair<std::string, std::string>>;
inline std::string Map(const Pairs& v) {
  std::string o = Head(5, v.size());
  for (auto& [k, x] : v) o += k + x;
  return o;
}
inline std::string Bool(bool b) { return std::string(1, b ? '\xf5' : '\xf4'); }
inline std::string Null() { return "\xf6"; }
}  // namespace cb
#endif  // VERIF_CBOR_H_
