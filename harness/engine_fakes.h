// Example sources and statistics sinks for the plan engines.
#ifndef VERIF_ENGINE_FAKES_H_
#define VERIF_ENGINE_FAKES_H_

#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/statusor.h"
#include "fcp/client/engine/example_iterator_factory.h"
#include "fcp/client/opstats/opstats_logger.h"
#include "fcp/client/simple_task_environment.h"
#include "pbt/pbt.h"

namespace fakes {

// Reads a checkpoint in the layout of the stand-in writers.
struct TensorOut {
  char type;
  std::vector<std::string> elements;  // raw bytes of each element
  bool operator==(const TensorOut& o) const {
    return type == o.type && elements == o.elements;
  }
};

inline size_t ElementSize(char type) {
  switch (type) {
    case 'i': case 'f': return 4;
    case 'l': case 'd': return 8;
    case 'b': return 1;
    default: return 0;
  }
}

inline std::map<std::string, TensorOut> ReadCheckpoint(
    const std::string& data, const std::string& magic) {
  size_t at = 0;
  auto take = [&](size_t n) {
    PBT_CHECK(at + n <= data.size() && at + n >= at, "checkpoint ends early");
    std::string r = data.substr(at, n);
    at += n;
    return r;
  };
  auto u64 = [&] {
    std::string r = take(8);
    uint64_t v;
    memcpy(&v, r.data(), 8);
    return v;
  };
  PBT_CHECK(take(magic.size()) == magic, "not a checkpoint");
  std::map<std::string, TensorOut> out;
  while (at < data.size()) {
    std::string name = take(u64());
    TensorOut t;
    t.type = take(1)[0];
    uint64_t n = u64();
    PBT_CHECK(n < 1000000, "checkpoint with an odd element count");
    for (uint64_t i = 0; i < n; ++i) {
      t.elements.push_back(t.type == 's' ? take(u64()) : take(ElementSize(t.type)));
    }
    PBT_CHECK(out.emplace(name, t).second, "two tensors named " + pbt::Quote(name));
  }
  return out;
}

struct DatasetStats : fcp::client::opstats::OpStatsLogger {
  void UpdateDatasetStats(const std::string& uri, int count, int64_t bytes) override {
    std::lock_guard<std::mutex> l(mu);
    auto& t = total[uri];
    t.first += count;
    t.second += bytes;
  }
  std::map<std::string, std::pair<int64_t, int64_t>> total;
  std::mutex mu;
};

// Plays back a list of examples, with an error at one place.
class Playback : public fcp::client::ExampleIterator {
 public:
  std::vector<std::string> examples;
  int fail_at = -1;  // before delivering this one
  bool fail_once = false;
  absl::Status error = absl::OkStatus();
  absl::Status end = absl::OutOfRangeError("end");
  size_t at = 0;
  int nexts = 0;
  bool* closed = nullptr;
  std::function<void()> on_next;

  absl::StatusOr<std::string> Next() override {
    nexts++;
    if (on_next) on_next();
    if (int(at) == fail_at) {
      if (fail_once) fail_at = -1;
      return error;
    }
    if (at < examples.size()) return examples[at++];
    return end;
  }
  void Close() override {
    if (closed) *closed = true;
  }
};

}  // namespace fakes
#endif  // VERIF_ENGINE_FAKES_H_
