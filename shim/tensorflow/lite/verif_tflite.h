// Stand-in for the TensorFlow Lite runtime. A model's bytes name a script
// which says what the runtime does with it; misuse is recorded in the script.
#ifndef VERIF_SHIM_TFLITE_H_
#define VERIF_SHIM_TFLITE_H_
#include <chrono>
#include <condition_variable>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include "absl/status/statusor.h"
#include "tensorflow/core/framework/tensor.h"
#include "tensorflow/lite/core/api/error_reporter.h"

enum TfLiteStatus {
  kTfLiteOk = 0,
  kTfLiteError = 1,
  kTfLiteDelegateError = 2,
  kTfLiteApplicationError = 3,
  kTfLiteDelegateDataNotFound = 4,
  kTfLiteDelegateDataWriteError = 5,
  kTfLiteDelegateDataReadError = 6,
  kTfLiteUnresolvedOps = 7,
  kTfLiteCancelled = 8,
};
enum TfLiteType { kTfLiteNoType = 0, kTfLiteFloat32 = 1, kTfLiteInt32 = 2, kTfLiteString = 5 };
struct TfLiteTensor {
  TfLiteType type = kTfLiteNoType;
  std::vector<std::string> strings;
  const absl::StatusOr<tensorflow::Tensor>* value = nullptr;
};
struct TfLiteDelegate {
  void* data_ = nullptr;
};

namespace tflite {
class Interpreter;
namespace verif {
enum Stage { kLoad, kBuild, kModify, kAllocate, kAssign, kInvoke, kOutput, kStages };
struct Script {
  // What happens.
  bool loads = true;
  Stage fails = kStages;              // kBuild, kModify or kAllocate
  std::vector<std::string> messages;  // reported when it fails
  std::vector<std::pair<std::string, TfLiteType>> inputs;
  TfLiteStatus invoke = kTfLiteOk;
  bool until_cancelled = false;  // Invoke only ends when it is cancelled
  bool between_ops = false;      // ... and notices that between operations
  std::vector<absl::StatusOr<tensorflow::Tensor>> outputs;
  std::function<void(Stage)> at;
  // What was done.
  std::mutex mu;
  std::condition_variable cv;
  std::string problem;
  std::map<std::string, std::vector<std::string>> assigned;
  int invokes = 0, threads = 0, live = 0;
  bool default_delegates = false, cancelled = false, applied = false, endless = false;
  void Bad(const std::string& p) {
    std::lock_guard<std::mutex> l(mu);
    if (problem.empty()) problem = p;
  }
  void At(Stage s) {
    if (at) at(s);
  }
  void Live(int d) {
    std::lock_guard<std::mutex> l(mu);
    live += d;
  }
};
inline std::mutex g_mu;
inline std::map<std::string, Script*> g_scripts;
inline std::set<void*> g_delegates;
inline std::string g_problem;  // when no script is known
inline thread_local Script* t_script = nullptr;
}  // namespace verif

struct Model {
  verif::Script* script;
};
class FlatBufferModel {
 public:
  static std::unique_ptr<FlatBufferModel> BuildFromBuffer(const char* data, size_t size) {
    verif::Script* s;
    {
      std::lock_guard<std::mutex> l(verif::g_mu);
      auto it = verif::g_scripts.find(std::string(data, size));
      if (it == verif::g_scripts.end()) {
        verif::g_problem = "another model is loaded";
        return nullptr;
      }
      s = it->second;
    }
    verif::t_script = s;
    s->At(verif::kLoad);
    if (!s->loads) return nullptr;
    return std::unique_ptr<FlatBufferModel>(new FlatBufferModel(s));
  }
  ~FlatBufferModel() { model_.script->Live(-1); }
  const Model* GetModel() const { return &model_; }

 private:
  explicit FlatBufferModel(verif::Script* s) : model_{s} { s->Live(1); }
  Model model_;
};

using TfLiteDelegateUniquePtr = std::unique_ptr<TfLiteDelegate, void (*)(TfLiteDelegate*)>;
class FlexDelegate {
 public:
  static TfLiteDelegateUniquePtr Create() {
    auto* f = new FlexDelegate;
    f->script_ = verif::t_script;
    f->script_->Live(1);
    std::lock_guard<std::mutex> l(verif::g_mu);
    verif::g_delegates.insert(f);
    auto* d = new TfLiteDelegate;
    d->data_ = f;
    return TfLiteDelegateUniquePtr(d, [](TfLiteDelegate* d) {
      auto* f = static_cast<FlexDelegate*>(d->data_);
      f->script_->Live(-1);
      {
        std::lock_guard<std::mutex> l(verif::g_mu);
        verif::g_delegates.erase(f);
        if (f->busy_ && verif::g_problem.empty()) verif::g_problem = "a delegate is destroyed while it is cancelled";
      }
      delete f;
      delete d;
    });
  }
  static bool HasCancelled(void* data) {
    auto* f = static_cast<FlexDelegate*>(data);
    std::lock_guard<std::mutex> l(verif::g_mu);
    if (!verif::g_delegates.count(f)) {
      if (verif::g_problem.empty()) verif::g_problem = "a delegate that is gone was asked";
      return false;
    }
    return f->cancelled_;
  }
  void Cancel() {
    {
      std::lock_guard<std::mutex> l(verif::g_mu);
      if (!verif::g_delegates.count(this)) {
        if (verif::g_problem.empty()) verif::g_problem = "a delegate that is not there is cancelled";
        return;
      }
      busy_ = true;
    }
    for (int i = 0; i < 3; ++i) std::this_thread::yield();
    std::lock_guard<std::mutex> l(verif::g_mu);
    if (!verif::g_delegates.count(this)) return;
    busy_ = false;
    cancelled_ = true;
    std::lock_guard<std::mutex> l2(script_->mu);
    script_->cancelled = true;
    script_->cv.notify_all();
  }

 private:
  verif::Script* script_;
  bool busy_ = false, cancelled_ = false;
};

namespace ops {
namespace builtin {
class BuiltinOpResolver {
 public:
  virtual ~BuiltinOpResolver() = default;
  virtual bool WithDefaultDelegates() const { return true; }
};
class BuiltinOpResolverWithoutDefaultDelegates : public BuiltinOpResolver {
 public:
  bool WithDefaultDelegates() const override { return false; }
};
}  // namespace builtin
}  // namespace ops

class Interpreter {
 public:
  Interpreter() = default;
  ~Interpreter() {
    if (!s_) return;
    s_->Live(-1);
    std::lock_guard<std::mutex> l(verif::g_mu);
    if (delegate_ && !verif::g_delegates.count(delegate_) && verif::g_problem.empty())
      verif::g_problem = "the delegate is destroyed before the interpreter that uses it";
  }
  TfLiteStatus Fail() {
    for (auto& m : s_->messages) reporter_->Report("%s", m.c_str());
    return kTfLiteError;
  }
  void SetNumThreads(int n) { s_->threads = n; }
  TfLiteStatus ModifyGraphWithDelegate(TfLiteDelegate* d) {
    s_->At(verif::kModify);
    delegate_ = d->data_;
    s_->applied = true;
    return s_->fails == verif::kModify ? Fail() : kTfLiteOk;
  }
  TfLiteStatus AllocateTensors() {
    s_->At(verif::kAllocate);
    allocated_ = true;
    return s_->fails == verif::kAllocate ? Fail() : kTfLiteOk;
  }
  void SetCancellationFunction(void* data, bool (*f)(void*)) {
    cancel_data_ = data;
    cancel_ = f;
  }
  const std::vector<int>& inputs() const { return inputs_; }
  const std::vector<int>& outputs() const { return outputs_; }
  const char* GetInputName(int index) const { return s_->inputs[index].first.c_str(); }
  TfLiteTensor* tensor(int index) {
    if (index < 0 || index >= int(tensors_.size())) {
      s_->Bad("a tensor that does not exist");
      return &tensors_[0];
    }
    if (!allocated_) s_->Bad("a tensor is used before it is allocated");
    if (index < int(inputs_.size())) s_->At(verif::kAssign);
    return &tensors_[index];
  }
  TfLiteStatus Invoke() {
    for (size_t i = 0; i < inputs_.size(); ++i) s_->assigned[s_->inputs[i].first] = tensors_[i].strings;
    s_->invokes++;
    if (!s_->applied) s_->Bad("invoked without the delegate");
    s_->At(verif::kInvoke);
    bool stopped = false;
    if (s_->until_cancelled) {
      auto end = std::chrono::steady_clock::now() + std::chrono::seconds(10);
      std::unique_lock<std::mutex> l(s_->mu);
      while (!stopped && !s_->endless) {
        s_->cv.wait_for(l, std::chrono::milliseconds(s_->between_ops ? 1 : 200));
        l.unlock();
        stopped = s_->between_ops ? cancel_ && cancel_(cancel_data_) : FlexDelegate::HasCancelled(delegate_);
        l.lock();
        if (std::chrono::steady_clock::now() > end) s_->endless = true;
      }
    }
    if (stopped) return Fail();
    if (s_->invoke != kTfLiteOk) {
      Fail();
      return s_->invoke;
    }
    return kTfLiteOk;
  }

 private:
  friend class InterpreterBuilder;
  verif::Script* s_ = nullptr;
  ErrorReporter* reporter_ = nullptr;
  void* delegate_ = nullptr;
  void* cancel_data_ = nullptr;
  bool (*cancel_)(void*) = nullptr;
  bool allocated_ = false;
  std::vector<int> inputs_, outputs_;
  std::vector<TfLiteTensor> tensors_;
};

class InterpreterBuilder {
 public:
  InterpreterBuilder(const Model* m, const ops::builtin::BuiltinOpResolver& r, ErrorReporter* e) : m_(m), r_(r), e_(e) {}
  TfLiteStatus operator()(std::unique_ptr<Interpreter>* out) {
    verif::Script* s = m_->script;
    s->At(verif::kBuild);
    s->default_delegates = r_.WithDefaultDelegates();
    *out = std::make_unique<Interpreter>();
    (*out)->s_ = s;
    (*out)->reporter_ = e_;
    s->Live(1);
    int n = 0;
    for (auto& i : s->inputs) {
      (*out)->inputs_.push_back(n++);
      (*out)->tensors_.push_back({i.second});
    }
    for (auto& o : s->outputs) {
      (*out)->outputs_.push_back(n++);
      (*out)->tensors_.push_back({kTfLiteFloat32, {}, &o});
    }
    (*out)->tensors_.emplace_back();
    return s->fails == verif::kBuild ? (*out)->Fail() : kTfLiteOk;
  }

 private:
  const Model* m_;
  const ops::builtin::BuiltinOpResolver& r_;
  ErrorReporter* e_;
};

class DynamicBuffer {
 public:
  void AddString(const char* p, size_t n) { strings_.emplace_back(p, n); }
  void WriteToTensor(TfLiteTensor* t, void*) { t->strings = strings_; }

 private:
  std::vector<std::string> strings_;
};

namespace flex {
inline absl::StatusOr<tensorflow::Tensor> CreateTfTensorFromTfLiteTensor(const TfLiteTensor* t) {
  verif::t_script->At(verif::kOutput);
  if (!t->value) {
    verif::t_script->Bad("an input is read as an output");
    return absl::InternalError("not an output");
  }
  return *t->value;
}
}  // namespace flex
}  // namespace tflite
#endif
