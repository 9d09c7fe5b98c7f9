#ifndef VERIF_SHIM_CPPBOR_PARSE_H_
#define VERIF_SHIM_CPPBOR_PARSE_H_

#include <cstdint>
#include <limits>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

#include "libcppbor/include/cppbor/cppbor.h"

namespace cppbor {

using ParseResult =
    std::tuple<std::unique_ptr<Item>, const uint8_t*, std::string>;

namespace internal {

class Parser {
 public:
  Parser(const uint8_t* b, const uint8_t* e) : p_(b), e_(e) {}
  std::unique_ptr<Item> Parse(int depth) {
    if (depth > 64) return Fail("nesting too deep");
    if (p_ == e_) return Fail("Input buffer is empty");
    uint8_t major = *p_ & 0xe0, info = *p_ & 0x1f;
    ++p_;
    uint64_t v = info;
    if (info >= 24) {
      if (info > 27) return Fail("Reserved or indefinite length");
      int n = 1 << (info - 24);
      if (e_ - p_ < n) return Fail("Need more bytes for length");
      v = 0;
      for (int i = 0; i < n; ++i) v = (v << 8) | *p_++;
    }
    switch (major) {
      case UINT:
        return std::make_unique<Uint>(v);
      case NINT:
        if (v > static_cast<uint64_t>(std::numeric_limits<int64_t>::max()))
          return Fail("NINT values that don't fit in int64_t");
        return std::make_unique<Nint>(-1 - static_cast<int64_t>(v));
      case BSTR: {
        if (static_cast<uint64_t>(e_ - p_) < v)
          return Fail("Need more bytes for byte string");
        auto r = std::make_unique<Bstr>(p_, p_ + v);
        p_ += v;
        return r;
      }
      case TSTR: {
        if (static_cast<uint64_t>(e_ - p_) < v)
          return Fail("Need more bytes for text string");
        auto r = std::make_unique<Tstr>(std::string(p_, p_ + v));
        p_ += v;
        return r;
      }
      case ARRAY: {
        auto a = std::make_unique<Array>();
        for (uint64_t i = 0; i < v; ++i) {
          auto c = Parse(depth + 1);
          if (!c) return nullptr;
          a->add(std::move(c));
        }
        return a;
      }
      case MAP: {
        auto m = std::make_unique<Map>();
        for (uint64_t i = 0; i < v; ++i) {
          auto k = Parse(depth + 1);
          if (!k) return nullptr;
          auto c = Parse(depth + 1);
          if (!c) return nullptr;
          m->add(std::move(k), std::move(c));
        }
        return m;
      }
      case SEMANTIC: {
        auto c = Parse(depth + 1);
        if (!c) return nullptr;
        return std::make_unique<SemanticTag>(v, std::move(c));
      }
      default:
        if (info >= 24 || v < 20 || v > 22)
          return Fail("Unsupported simple or float value");
        return std::make_unique<Simple>(static_cast<uint8_t>(v));
    }
  }
  const uint8_t* pos() const { return p_; }
  const std::string& error() const { return error_; }

 private:
  std::unique_ptr<Item> Fail(const char* m) {
    if (error_.empty()) error_ = m;
    return nullptr;
  }
  const uint8_t* p_;
  const uint8_t* e_;
  std::string error_;
};

}  // namespace internal

inline ParseResult parse(const uint8_t* begin, const uint8_t* end) {
  internal::Parser p(begin, end);
  std::unique_ptr<Item> item = p.Parse(0);
  if (!item) return {nullptr, begin, p.error()};
  return {std::move(item), p.pos(), ""};
}
inline ParseResult parse(const uint8_t* begin, size_t size) {
  return parse(begin, begin + size);
}
inline ParseResult parse(const std::vector<uint8_t>& v) {
  return parse(v.data(), v.size());
}

}  // namespace cppbor

#endif  // VERIF_SHIM_CPPBOR_PARSE_H_
