// Replaces the RAND_bytes the tree links against by a seeded generator, so
// that a case is a function of its choices. Extreme values are favoured.
#ifndef VERIF_DETRAND_H_
#define VERIF_DETRAND_H_
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <mutex>

namespace detrand {
inline uint64_t& State() {
  static uint64_t s = 1;
  return s;
}
// 0: uniform; 1: often all-ones / all-zero 4-byte words.
inline int& Mode() {
  static int m = 0;
  return m;
}
inline std::mutex& Mu() {
  static std::mutex m;
  return m;
}
inline void Seed(uint64_t s, int mode = 0) {
  State() = s * 2 + 1;
  Mode() = mode;
}
inline uint64_t Next() {
  uint64_t x = (State() += 0x9e3779b97f4a7c15ull);
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
}  // namespace detrand

#ifdef VERIF_DETRAND_DEFINE
extern "C" int RAND_bytes(uint8_t* buf, size_t len) {
  std::lock_guard<std::mutex> l(detrand::Mu());
  if (detrand::Mode() == 1 && len == 4) {
    uint32_t v;
    uint64_t r = detrand::Next();
    switch (r & 3) {
      case 0:
        v = static_cast<uint32_t>(2147483658u - ((r >> 8) & 3));  // prime - 1..
        break;
      case 1:
        v = static_cast<uint32_t>((r >> 8) & 3);
        break;
      default:
        v = static_cast<uint32_t>(r >> 20);
    }
    memcpy(buf, &v, 4);
    return 1;
  }
  while (len > 0) {
    uint64_t r = detrand::Next();
    size_t n = len < 8 ? len : 8;
    memcpy(buf, &r, n);
    buf += n;
    len -= n;
  }
  return 1;
}
#endif
#endif
