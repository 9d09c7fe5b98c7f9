// Stand-ins shared by the checks of the client library.
#ifndef VERIF_CLIENT_FAKES_H_
#define VERIF_CLIENT_FAKES_H_

#include <cstdint>
#include <map>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#include "fcp/client/flags.h"
#include "fcp/client/log_manager.h"

namespace fakes {

class Log : public fcp::client::LogManager {
 public:
  void LogDiag(fcp::client::ProdDiagCode c) override {
    std::lock_guard<std::mutex> l(mu_);
    prod[c]++;
  }
  void LogDiag(fcp::client::DebugDiagCode c) override {
    std::lock_guard<std::mutex> l(mu_);
    debug[c]++;
  }
  void LogToLongHistogram(fcp::client::HistogramCounters c, int, int,
                          fcp::client::engine::DataSourceType,
                          int64_t v) override {
    std::lock_guard<std::mutex> l(mu_);
    histograms.emplace_back(c, v);
  }
  void SetModelIdentifier(const std::string& m) override { model = m; }
  std::map<int, int> prod, debug;
  std::vector<std::pair<int, int64_t>> histograms;
  std::string model;

 private:
  std::mutex mu_;
};

class BaseFlags : public fcp::client::Flags {
 public:
  int64_t condition_polling_period_millis() const override { return 1000; }
  int64_t tf_execution_teardown_grace_period_millis() const override {
    return 1000;
  }
  int64_t tf_execution_teardown_extended_period_millis() const override {
    return 2000;
  }
  bool log_tensorflow_error_messages() const override { return true; }
};

}  // namespace fakes
#endif  // VERIF_CLIENT_FAKES_H_
