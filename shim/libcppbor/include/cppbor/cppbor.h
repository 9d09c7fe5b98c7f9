// Minimal CBOR library with the interface of libcppbor that the code under
// test uses. Definite lengths only, like the original parser's default.
#ifndef VERIF_SHIM_CPPBOR_H_
#define VERIF_SHIM_CPPBOR_H_

#include <cstdint>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace cppbor {

enum MajorType : uint8_t {
  UINT = 0 << 5,
  NINT = 1 << 5,
  BSTR = 2 << 5,
  TSTR = 3 << 5,
  ARRAY = 4 << 5,
  MAP = 5 << 5,
  SEMANTIC = 6 << 5,
  SIMPLE = 7 << 5,
};

class Int;
class Uint;
class Nint;
class Bstr;
class Tstr;
class Array;
class Map;

inline void EncodeHeader(uint8_t major, uint64_t v, std::vector<uint8_t>* o) {
  int n;
  if (v < 24) {
    o->push_back(major | static_cast<uint8_t>(v));
    return;
  } else if (v <= 0xff) {
    o->push_back(major | 24);
    n = 1;
  } else if (v <= 0xffff) {
    o->push_back(major | 25);
    n = 2;
  } else if (v <= 0xffffffffu) {
    o->push_back(major | 26);
    n = 4;
  } else {
    o->push_back(major | 27);
    n = 8;
  }
  for (int i = n - 1; i >= 0; --i) o->push_back((v >> (8 * i)) & 0xff);
}

class Item {
 public:
  virtual ~Item() = default;
  virtual MajorType type() const = 0;
  virtual Int* asInt() { return nullptr; }
  virtual Bstr* asBstr() { return nullptr; }
  virtual Tstr* asTstr() { return nullptr; }
  virtual Array* asArray() { return nullptr; }
  virtual Map* asMap() { return nullptr; }
  const Int* asInt() const { return const_cast<Item*>(this)->asInt(); }
  const Bstr* asBstr() const { return const_cast<Item*>(this)->asBstr(); }
  const Tstr* asTstr() const { return const_cast<Item*>(this)->asTstr(); }
  const Array* asArray() const { return const_cast<Item*>(this)->asArray(); }
  const Map* asMap() const { return const_cast<Item*>(this)->asMap(); }
  virtual void EncodeTo(std::vector<uint8_t>* o) const = 0;
  std::vector<uint8_t> encode() const {
    std::vector<uint8_t> o;
    EncodeTo(&o);
    return o;
  }
  std::string toString() const {
    std::vector<uint8_t> o = encode();
    return std::string(o.begin(), o.end());
  }
};

class Int : public Item {
 public:
  Int* asInt() override { return this; }
  virtual int64_t value() const = 0;
};

class Uint : public Int {
 public:
  explicit Uint(uint64_t v) : v_(v) {}
  MajorType type() const override { return UINT; }
  int64_t value() const override { return static_cast<int64_t>(v_); }
  uint64_t unsignedValue() const { return v_; }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(UINT, v_, o);
  }

 private:
  uint64_t v_;
};

class Nint : public Int {
 public:
  explicit Nint(int64_t v) : v_(v) {}
  MajorType type() const override { return NINT; }
  int64_t value() const override { return v_; }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(NINT, static_cast<uint64_t>(-(v_ + 1)), o);
  }

 private:
  int64_t v_;
};

class Bstr : public Item {
 public:
  explicit Bstr(std::vector<uint8_t> v) : v_(std::move(v)) {}
  explicit Bstr(const std::string& s) : v_(s.begin(), s.end()) {}
  template <typename It, typename = typename std::iterator_traits<
                             It>::iterator_category>
  Bstr(It b, It e) : v_(b, e) {}
  MajorType type() const override { return BSTR; }
  Bstr* asBstr() override { return this; }
  const std::vector<uint8_t>& value() const { return v_; }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(BSTR, v_.size(), o);
    o->insert(o->end(), v_.begin(), v_.end());
  }

 private:
  std::vector<uint8_t> v_;
};

class Tstr : public Item {
 public:
  explicit Tstr(std::string v) : v_(std::move(v)) {}
  MajorType type() const override { return TSTR; }
  Tstr* asTstr() override { return this; }
  const std::string& value() const { return v_; }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(TSTR, v_.size(), o);
    o->insert(o->end(), v_.begin(), v_.end());
  }

 private:
  std::string v_;
};

class Simple : public Item {
 public:
  explicit Simple(uint8_t v) : v_(v) {}
  MajorType type() const override { return SIMPLE; }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(SIMPLE, v_, o);
  }

 private:
  uint8_t v_;
};

class SemanticTag : public Item {
 public:
  SemanticTag(uint64_t tag, std::unique_ptr<Item> item)
      : tag_(tag), item_(std::move(item)) {}
  MajorType type() const override { return item_->type(); }
  Int* asInt() override { return item_->asInt(); }
  Bstr* asBstr() override { return item_->asBstr(); }
  Tstr* asTstr() override { return item_->asTstr(); }
  Array* asArray() override { return item_->asArray(); }
  Map* asMap() override { return item_->asMap(); }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(SEMANTIC, tag_, o);
    item_->EncodeTo(o);
  }

 private:
  uint64_t tag_;
  std::unique_ptr<Item> item_;
};

template <typename T>
std::unique_ptr<Item> MakeItem(T&& v);

class Array : public Item {
 public:
  Array() = default;
  Array(Array&&) = default;
  Array& operator=(Array&&) = default;
  template <typename A, typename B, typename... Rest>
  Array(A&& a, B&& b, Rest&&... rest) {
    add(std::forward<A>(a));
    add(std::forward<B>(b));
    (add(std::forward<Rest>(rest)), ...);
  }
  template <typename T>
  Array& add(T&& v) & {
    v_.push_back(MakeItem(std::forward<T>(v)));
    return *this;
  }
  MajorType type() const override { return ARRAY; }
  Array* asArray() override { return this; }
  size_t size() const { return v_.size(); }
  std::unique_ptr<Item>& get(size_t i) { return v_[i]; }
  const std::unique_ptr<Item>& get(size_t i) const { return v_[i]; }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(ARRAY, v_.size(), o);
    for (const auto& i : v_) i->EncodeTo(o);
  }

 private:
  std::vector<std::unique_ptr<Item>> v_;
};

class Map : public Item {
 public:
  Map() = default;
  Map(Map&&) = default;
  Map& operator=(Map&&) = default;
  template <typename K, typename V>
  Map& add(K&& k, V&& v) & {
    v_.emplace_back(MakeItem(std::forward<K>(k)), MakeItem(std::forward<V>(v)));
    return *this;
  }
  MajorType type() const override { return MAP; }
  Map* asMap() override { return this; }
  size_t size() const { return v_.size(); }
  auto begin() const { return v_.begin(); }
  auto end() const { return v_.end(); }
  void EncodeTo(std::vector<uint8_t>* o) const override {
    EncodeHeader(MAP, v_.size(), o);
    for (const auto& [k, v] : v_) {
      k->EncodeTo(o);
      v->EncodeTo(o);
    }
  }

 private:
  std::vector<std::pair<std::unique_ptr<Item>, std::unique_ptr<Item>>> v_;
};

template <typename T>
std::unique_ptr<Item> MakeItem(T&& v) {
  using D = std::decay_t<T>;
  if constexpr (std::is_same_v<D, std::unique_ptr<Item>>) {
    return std::move(v);
  } else if constexpr (std::is_same_v<D, bool>) {
    return std::make_unique<Simple>(v ? 21 : 20);
  } else if constexpr (std::is_base_of_v<Item, D>) {
    return std::make_unique<D>(std::forward<T>(v));
  } else if constexpr (std::is_enum_v<D>) {
    return MakeItem(static_cast<int64_t>(v));
  } else if constexpr (std::is_integral_v<D> && std::is_signed_v<D>) {
    if (v < 0) return std::make_unique<Nint>(v);
    return std::make_unique<Uint>(static_cast<uint64_t>(v));
  } else if constexpr (std::is_integral_v<D>) {
    return std::make_unique<Uint>(v);
  } else if constexpr (std::is_same_v<D, std::vector<uint8_t>>) {
    return std::make_unique<Bstr>(std::forward<T>(v));
  } else {
    return std::make_unique<Tstr>(std::string(v));
  }
}

}  // namespace cppbor

#endif  // VERIF_SHIM_CPPBOR_H_
