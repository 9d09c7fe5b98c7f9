// Small property-testing engine.
//
// A test case is a sequence of bounded integer choices. Random generation
// draws fresh choices, replay and shrinking feed recorded ones, so every
// generator shrinks for free and a replay file is just the choice list.
// Cases run in forked workers; a crash is attributed to the case being run.
#ifndef VERIF_PBT_H_
#define VERIF_PBT_H_

#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <sstream>
#include <string>
#include <vector>

namespace pbt {

struct Failure {
  std::string message;
};
// Thrown to drop a case that turned out not to be a legal input.
struct Discard {};

[[noreturn]] void Fail(const std::string& message);

class Src {
 public:
  // Uniform in [0, n); n == 0 means the full 64-bit range. 0 is simplest.
  uint64_t draw(uint64_t n);

  // Uniform in [lo, hi].
  int64_t range(int64_t lo, int64_t hi);
  uint64_t urange(uint64_t lo, uint64_t hi);
  // Biased towards lo and towards small values; still reaches hi.
  int64_t small(int64_t lo, int64_t hi);
  // True with probability num/den.
  bool chance(int num, int den);
  bool flip() { return chance(1, 2); }
  // Index chosen with the given weights. Index 0 is simplest.
  int weighted(std::initializer_list<int> weights);
  int weighted(const std::vector<int>& weights);
  // Unsigned value of at most `bits` bits, favouring boundaries.
  uint64_t edgy(int bits = 64);
  int64_t edgy_signed();
  // Arbitrary bytes, length small-biased up to max_len.
  std::string bytes(size_t max_len);
  std::string fixed_bytes(size_t len);
  // String over the given alphabet.
  std::string str(size_t max_len, const std::string& alphabet);
  std::string ident(size_t max_len = 6);
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  template <typename T>
  T of(std::initializer_list<T> v) {
    return *(v.begin() + draw(v.size()));
  }
  template <typename T>
  void shuffle(std::vector<T>* v) {
    for (size_t i = v->size(); i > 1; --i) {
      // 0 keeps the element in place.
      size_t j = i - 1 - draw(i);
      std::swap((*v)[i - 1], (*v)[j]);
    }
  }
  // Number of choices drawn so far.
  size_t used() const;
};

class Case {
 public:
  // Human-readable history of the case; goes into samples and replay files.
  std::ostringstream log;
  // Marks the case as exercising the property for real.
  void nontrivial(bool v = true) { nontrivial_ = nontrivial_ || v; }
  // Counts a class of behaviour for the distribution report.
  void label(const std::string& name);
  // Identity of the case for the distinct count (default: the choices).
  void key(const std::string& k) { key_ = k; }
  // Private scratch directory, created on first use, removed after the case.
  const std::string& scratch();
  uint64_t index = 0;

  bool nontrivial_ = false;
  std::string key_;
  std::string scratch_;
  std::vector<std::string> labels_;
};

using TestFn = void (*)(Src&, Case&);

// One generator/oracle pair of a property, with its case counts per tier.
struct Part {
  const char* name;
  TestFn fn;
  int quick_cases;
  int thorough_cases;
};

int Main(int argc, char** argv, const char* id, const char* rule,
         const std::vector<Part>& parts, bool hang_is_violation = false,
         int jobs = 8, int case_timeout_s = 60);

std::string Hex(const std::string& s, size_t max = 64);
std::string Quote(const std::string& s, size_t max = 80);

}  // namespace pbt

#define PBT_CHECK(cond, msg)                                                 \
  do {                                                                       \
    if (!(cond)) {                                                           \
      std::ostringstream pbt_os_;                                            \
      pbt_os_ << msg << "  [" << #cond << " at line " << __LINE__ << "]";    \
      ::pbt::Fail(pbt_os_.str());                                            \
    }                                                                        \
  } while (0)

#define PBT_EQ(a, b, msg)                                                  \
  do {                                                                     \
    auto pbt_a_ = (a);                                                     \
    auto pbt_b_ = (b);                                                     \
    if (!(pbt_a_ == pbt_b_)) {                                             \
      std::ostringstream pbt_os_;                                          \
      pbt_os_ << msg << ": " << #a << " = " << pbt_a_ << " but expected "  \
              << pbt_b_ << "  [line " << __LINE__ << "]";                  \
      ::pbt::Fail(pbt_os_.str());                                          \
    }                                                                      \
  } while (0)

#endif  // VERIF_PBT_H_
