// LIBS: fcp_tracing
// B06: chains of results, expectations and guarded calls.
#include <atomic>
#include <memory>
#include <optional>
#include <string>
#include <thread>
#include <variant>
#include <vector>

#include "fcp/base/match.h"
#include "fcp/base/reentrancy_guard.h"
#include "fcp/base/result.h"
#include "fcp/base/tracing_schema.h"
#include "fcp/tracing/tracing_recorder_impl.h"
#include "fcp/tracing/tracing_span.h"
#include "fcp/tracing/tracing_span_impl.h"
#include "pbt/pbt.h"
#include "verif/trace.h"

namespace {

using fcp::Error;
using fcp::Result;
using fcp::Unit;

// Keeps every traced event.
struct Seen {
  std::string name;
  int expected = -1, actual = -1;
  std::string text;
  int num = 0;
};
std::vector<Seen>& Events() {
  static auto* v = new std::vector<Seen>;
  return *v;
}

class Recorder;
class Span : public fcp::tracing_internal::TracingSpanImpl {
 public:
  explicit Span(Recorder* r) : r_(r) {}
  void TraceImpl(flatbuffers::DetachedBuffer&& buf,
                 const fcp::TracingTraitsBase& traits) override {
    Seen e;
    e.name = traits.Name();
    if (e.name == "ResultExpectStatusError") {
      auto* t = flatbuffers::GetRoot<ResultExpectStatusError>(buf.data());
      e.expected = t->expected_code();
      e.actual = t->actual_code();
      e.text = t->message()->str();
    } else if (e.name == "VError") {
      e.text = flatbuffers::GetRoot<VError>(buf.data())->word()->str();
    }
    Events().push_back(e);
  }
  fcp::TracingSpanRef Ref() override;

 private:
  Recorder* r_;
};
class Recorder : public fcp::tracing_internal::TracingRecorderImpl {
 public:
  Recorder() : root_(this) {}
  void TraceImpl(fcp::TracingSpanId, flatbuffers::DetachedBuffer&&,
                 const fcp::TracingTraitsBase&) override {}
  fcp::tracing_internal::TracingSpanImpl* GetRootSpan() override { return &root_; }
  std::unique_ptr<fcp::tracing_internal::TracingSpanImpl> CreateChildSpan(
      fcp::TracingSpanId, flatbuffers::DetachedBuffer&&,
      const fcp::TracingTraitsBase&) override {
    return std::make_unique<Span>(this);
  }

 private:
  Span root_;
};
fcp::TracingSpanRef Span::Ref() {
  return fcp::TracingSpanRef(r_->shared_from_this(), fcp::TracingSpanId(0));
}
void Install() {
  static auto* recorder = [] {
    auto* r = new std::shared_ptr<Recorder>(new Recorder);
    (*r)->InstallAsGlobal();
    return r;
  }();
  (void)recorder;
  Events().clear();
}

struct A {
  int v;
  bool operator==(const A& o) const { return v == o.v; }
};
struct B {
  std::string v;
};
struct C {
  double v;
};
using V = std::variant<A, B, C>;
using Box = std::unique_ptr<int64_t>;

// The value of a chain, or the index of the step that failed.
struct Model {
  int64_t value;
  bool failed = false;
};

Result<Box> TryStep(Result<Box> r, int64_t k, int* ran) {
  Box b = FCP_TRY(std::move(r));
  ++*ran;
  *b += k;
  return b;
}
Result<int64_t> TryInt(const Result<int64_t>& r, int64_t k, int* ran) {
  int64_t v = FCP_TRY(r);
  ++*ran;
  return v + k;
}

fcp::Status MakeStatus(int code, const std::string& msg) {
  if (code == 0) return fcp::Status();
  return fcp::Status(static_cast<fcp::StatusCode>(code), msg);
}

void Chain(pbt::Src& s, pbt::Case& c) {
  Install();
  int64_t start = s.range(-1000, 1000);
  int fail_start = s.chance(1, 10);
  // Owned values take the moving route, plain ones the copying route.
  bool owned = s.flip();
  Result<Box> box = fail_start ? Result<Box>(fcp::TraceError<VError>("start"))
                               : Result<Box>(std::make_unique<int64_t>(start));
  Result<int64_t> num = fail_start ? Result<int64_t>(fcp::TraceError<VError>("start"))
                                   : Result<int64_t>(start);
  Events().clear();
  Model m{start, fail_start != 0};
  int n = s.small(1, 10);
  int ran = 0, should_run = 0, failures = 0;
  Seen want;
  c.log << (owned ? "owned " : "plain ") << start << (fail_start ? " failed" : "") << "\n";
  bool late = false;
  for (int i = 0; i < n; ++i) {
    int k = s.weighted({3, 3, 2, 1, 2, 2, 2, 2});
    int64_t x = s.range(-9, 9);
    bool fails = s.chance(1, 8);
    c.log << "step " << k << " " << x << (fails ? " fails" : "") << "\n";
    bool before = m.failed;
    if (before) late = true;
    Seen e;
    bool records = false;
    switch (k) {
      case 0:  // Then
      {
        std::string word = "e" + std::to_string(i);
        if (owned) {
          box = std::move(box).Then([&](Box&& b) -> Result<Box> {
            ++ran;
            if (fails) return fcp::TraceError<VError>(word);
            *b = *b * 3 + x;
            return std::move(b);
          });
        } else {
          const Result<int64_t>& r = num;
          Result<int64_t> next = r.Then([&](int64_t v) -> Result<int64_t> {
            ++ran;
            if (fails) return fcp::TraceError<VError>(word);
            return v * 3 + x;
          });
          PBT_CHECK(num.is_error() == before, "the source of a chain changed");
          if (!before) PBT_EQ(num.GetValueOrDie(), m.value, "the source of a chain changed");
          num = next;
        }
        if (!before) {
          ++should_run;
          m.value = m.value * 3 + x;
          m.failed = fails;
          e.name = "VError";
          e.text = word;
          records = fails;
        }
        break;
      }
      case 1:  // Map
        if (owned) {
          box = std::move(box).Map([&](Box&& b) {
            ++ran;
            *b += x;
            return std::move(b);
          });
        } else {
          num = num.Map([&](const int64_t& v) {
            ++ran;
            return v + x;
          });
        }
        if (!before) {
          ++should_run;
          m.value += x;
        }
        break;
      case 2:  // early return
        if (owned) {
          box = TryStep(std::move(box), x, &ran);
        } else {
          num = TryInt(num, x, &ran);
        }
        if (!before) {
          ++should_run;
          m.value += x;
        }
        break;
      case 3:  // a value of another kind in between
        if (owned) {
          auto t = std::move(box).Map([&](Box&& b) {
            ++ran;
            return std::to_string(*b);
          });
          box = std::move(t).Map([&](std::string&& v) {
            ++ran;
            return std::make_unique<int64_t>(std::stoll(v));
          });
        } else {
          auto t = num.Map([&](int64_t v) {
            ++ran;
            return std::to_string(v);
          });
          num = t.Map([&](const std::string& v) {
            ++ran;
            return static_cast<int64_t>(std::stoll(v));
          });
        }
        if (!before) should_run += 2;
        break;
      case 4: {  // a status on the way
        int code = fails ? s.range(1, 16) : 0;
        std::string msg = s.ident(5);
        auto check = [&](int64_t v) -> Result<int64_t> {
          ++ran;
          return Result<fcp::Status>(MakeStatus(code, msg))
              .Then(fcp::ExpectOk())
              .Map([&](Unit) { return v; });
        };
        auto check_or = [&](int64_t v) -> Result<int64_t> {
          ++ran;
          fcp::StatusOr<int64_t> so(v);
          if (code != 0) so = MakeStatus(code, msg);
          return Result<fcp::StatusOr<int64_t>>(std::move(so)).Then(fcp::ExpectOk());
        };
        bool with_value = s.flip();
        if (owned) {
          box = std::move(box)
                    .Then([&](Box&& b) { return with_value ? check_or(*b) : check(*b); })
                    .Map([](int64_t v) { return std::make_unique<int64_t>(v); });
        } else {
          num = num.Then([&](int64_t v) { return with_value ? check_or(v) : check(v); });
        }
        if (!before) {
          ++should_run;
          m.failed = code != 0;
          e.name = "ResultExpectStatusError";
          e.expected = 0;
          e.actual = code;
          e.text = msg;
          records = m.failed;
        }
        break;
      }
      case 5: {  // an optional on the way
        bool want_empty = s.flip();
        auto check = [&](int64_t v) -> Result<int64_t> {
          ++ran;
          std::optional<int64_t> o;
          if (want_empty == fails) o = v;
          if (want_empty) {
            return Result<std::optional<int64_t>>(o).Then(fcp::ExpectIsEmpty()).Map([&](Unit) { return v; });
          }
          return Result<std::optional<int64_t>>(o).Then(fcp::ExpectHasValue());
        };
        if (owned) {
          box = std::move(box).Then([&](Box&& b) { return check(*b); }).Map([](int64_t v) {
            return std::make_unique<int64_t>(v);
          });
        } else {
          num = num.Then(check);
        }
        if (!before) {
          ++should_run;
          m.failed = fails;
          e.name = "ResultExpectError";
          records = fails;
        }
        break;
      }
      case 6: {  // a truth value on the way
        bool want_true = s.flip();
        auto check = [&](int64_t v) -> Result<int64_t> {
          ++ran;
          Result<bool> b(want_true != fails);
          Result<Unit> u = want_true ? b.Then([](bool x) { return fcp::ExpectTrue()(x); })
                                     : b.Then([](bool x) { return fcp::ExpectFalse()(x); });
          return u.Map([&](Unit) { return v; });
        };
        if (owned) {
          box = std::move(box).Then([&](Box&& b) { return check(*b); }).Map([](int64_t v) {
            return std::make_unique<int64_t>(v);
          });
        } else {
          num = num.Then(check);
        }
        if (!before) {
          ++should_run;
          m.failed = fails;
          e.name = "ResultExpectError";
          records = fails;
        }
        break;
      }
      case 7: {  // one of several kinds of value on the way
        int which = s.range(0, 2);
        bool pair = s.flip();
        auto check = [&](int64_t v) -> Result<int64_t> {
          ++ran;
          V var = which == 0 ? V(A{7}) : which == 1 ? V(B{"seven"}) : V(C{7.5});
          if (pair) {
            return Result<V>(var).Then(fcp::ExpectOneOf<A, C>()).Then([&](std::variant<A, C> g) -> Result<int64_t> {
              bool right = std::holds_alternative<A>(g) ? which == 0 && std::get<A>(g).v == 7
                                                        : which == 2 && std::get<C>(g).v == 7.5;
              return right ? v : v + 1000000;
            });
          }
          return Result<V>(var).Then(fcp::ExpectIs<B>()).Map([&](B b) {
            return b.v == "seven" ? v : v + 1000000;
          });
        };
        if (owned) {
          box = std::move(box).Then([&](Box&& b) { return check(*b); }).Map([](int64_t v) {
            return std::make_unique<int64_t>(v);
          });
        } else {
          num = num.Then(check);
        }
        if (!before) {
          ++should_run;
          m.failed = pair ? which == 1 : which != 1;
          e.name = "ResultExpectError";
          records = m.failed;
        }
        break;
      }
    }
    if (records) {
      want = e;
      ++failures;
    }
    bool failed = owned ? box.is_error() : num.is_error();
    PBT_EQ(failed, m.failed, "failed after step " << i);
    PBT_EQ(ran, should_run, "steps run after step " << i);
    if (!failed) {
      PBT_EQ(owned ? *box.GetValueOrDie() : num.GetValueOrDie(), m.value,
             "value after step " << i);
    }
    // Matching sees the same thing.
    if (!owned) {
      int64_t via = fcp::Match<int64_t>(
          num, [](const int64_t& v) { return v; }, [](const Error&) { return int64_t{-1}; });
      PBT_EQ(via, m.failed ? -1 : m.value, "matched value");
    }
  }
  c.nontrivial(late || (!m.failed && n >= 3));
  if (late) c.label("steps after a failure");
  PBT_EQ(Events().size(), static_cast<size_t>(failures), "errors recorded");
  if (failures) {
    const Seen& got = Events().back();
    PBT_EQ(got.name, want.name, "kind of error recorded");
    PBT_EQ(got.expected, want.expected, "code expected");
    PBT_EQ(got.actual, want.actual, "code recorded");
    PBT_EQ(got.text, want.text, "message recorded");
  }
}

// An object whose methods may not overlap.
struct Guarded {
  std::atomic<bool> in_use{false};
  std::atomic<int> inside{0};
  std::atomic<int> most{0};

  template <typename Fn>
  fcp::Status Call(Fn fn) {
    fcp::ReentrancyGuard guard;
    FCP_RETURN_IF_ERROR(guard.Check(&in_use));
    int now = ++inside;
    int old = most;
    while (now > old && !most.compare_exchange_weak(old, now)) {
    }
    fn();
    --inside;
    return fcp::Status();
  }
};

struct Node {
  std::vector<Node> kids;
};
Node Tree(pbt::Src& s, int depth, int* budget) {
  Node n;
  int k = depth >= 4 ? 0 : s.small(0, 3);
  for (int i = 0; i < k && *budget > 0; ++i) {
    --*budget;
    n.kids.push_back(Tree(s, depth + 1, budget));
  }
  return n;
}

void Guard(pbt::Src& s, pbt::Case& c) {
  Guarded g;
  int budget = 30;
  Node tree = Tree(s, 0, &budget);
  int accepted = 0, refused = 0;
  // Calls from within a call are refused and change nothing.
  std::function<void(const Node&, bool)> run = [&](const Node& n, bool nested) {
    fcp::Status st = g.Call([&] {
      for (const Node& k : n.kids) run(k, true);
    });
    if (nested) {
      PBT_CHECK(st.code() == fcp::FAILED_PRECONDITION, "nested call got " << st);
      ++refused;
    } else {
      PBT_CHECK(st.ok(), "call refused: " << st);
      ++accepted;
    }
  };
  run(tree, false);
  for (const Node& k : tree.kids) run(k, false);
  c.log << "nested: accepted " << accepted << " refused " << refused << "\n";
  PBT_CHECK(!g.in_use, "guard still held");
  // Calls that begin together on several threads, the accepted one staying
  // inside until the others have their answer: exactly one is accepted.
  int threads = s.range(2, 4), rounds = s.range(1, 200);
  std::atomic<int> arrived{0}, here{0}, ok{0}, no{0}, other{0};
  std::vector<std::thread> ts;
  for (int i = 0; i < threads; ++i) {
    ts.emplace_back([&] {
      auto wait_for = [](const std::atomic<int>& v, int n) {
        for (int k = 0; v < n; ++k)
          if (k > 500) std::this_thread::yield();
      };
      for (int j = 0; j < rounds; ++j) {
        ++arrived;
        wait_for(arrived, threads * (j + 1));
        fcp::Status st = g.Call([&] {
          ++here;
          wait_for(here, threads * (j + 1));
        });
        if (st.ok()) {
          ++ok;
          continue;
        }
        ++(st.code() == fcp::FAILED_PRECONDITION ? no : other);
        ++here;
      }
    });
  }
  for (auto& t : ts) t.join();
  PBT_EQ(g.most.load(), 1, "calls inside at once");
  PBT_EQ(other.load(), 0, "other answers");
  PBT_EQ(ok.load(), rounds, "accepted calls");
  PBT_EQ(ok + no, threads * rounds, "answers");
  PBT_CHECK(g.Call([] {}).ok(), "a later call was refused");
  c.nontrivial(refused > 0 || no > 0);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "B06",
                   "a chain with steps after a failure or three or more "
                   "successful steps, or a guarded call that overlaps another",
                   {{"chain", Chain, 20000, 300000}, {"guard", Guard, 1500, 20000}}, true, 8, 40);
}
