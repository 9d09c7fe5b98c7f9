// Stand-in for TensorFlow sessions; the harness decides what they do.
#ifndef VERIF_SHIM_TF_SESSION_H_
#define VERIF_SHIM_TF_SESSION_H_
#include <functional>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "tensorflow/core/framework/graph.pb.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/core/public/session_options.h"
namespace tensorflow {
class Session {
 public:
  virtual ~Session() = default;
  virtual absl::Status Create(const GraphDef& graph) = 0;
  virtual absl::Status Run(const std::vector<std::pair<std::string, Tensor>>& inputs, const std::vector<std::string>& output_tensor_names,
                           const std::vector<std::string>& target_tensor_names, std::vector<Tensor>* outputs) = 0;
  virtual absl::Status Close() = 0;
};
namespace verif {
inline std::function<absl::Status(const SessionOptions&, Session**)> g_new_session;
}
inline absl::Status NewSession(const SessionOptions& options, Session** out) { return verif::g_new_session(options, out); }
inline Session* NewSession(const SessionOptions& options) {
  Session* s = nullptr;
  return verif::g_new_session(options, &s).ok() ? s : nullptr;
}
}  // namespace tensorflow
#endif
