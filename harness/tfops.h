// Runs the custom ops the way a graph would.
#ifndef VERIF_TFOPS_H_
#define VERIF_TFOPS_H_
#include <memory>
#include <string>
#include <vector>
#include "pbt/pbt.h"
#include "verif_tf.h"

namespace tfops {
namespace tf = ::tensorflow;
using Args = std::vector<std::vector<tf::Tensor>>;

struct Call {
  std::unique_ptr<tf::OpKernel> kernel;
  tf::OpKernelContext ctx;
  absl::Status status;  // of construction or computation
};

// Makes the kernel only.
inline std::unique_ptr<Call> Make(
    const std::string& op,
    const std::map<std::string, std::string>& attrs = {},
    const std::vector<std::string>& node_inputs = {}) {
  auto c = std::make_unique<Call>();
  auto it = tf::verif::Kernels().find(op);
  PBT_CHECK(it != tf::verif::Kernels().end(), "no kernel for " << op);
  tf::OpKernelConstruction con;
  con.string_attrs = attrs;
  for (const auto& i : node_inputs) con.def_.add_input(i);
  c->kernel.reset(it->second(&con));
  c->status = con.status();
  return c;
}
inline void Compute(Call* c, const std::string& op, const Args& args) {
  if (!c->status.ok()) return;
  absl::Status s = tf::verif::SetInputs(&c->ctx, op, args);
  PBT_CHECK(s.ok(), s.ToString());
  c->kernel->Compute(&c->ctx);
  c->status = c->ctx.status();
}
inline std::unique_ptr<Call> Run(
    const std::string& op, const Args& args,
    const std::map<std::string, std::string>& attrs = {},
    const std::vector<std::string>& node_inputs = {}) {
  auto c = Make(op, attrs, node_inputs);
  Compute(c.get(), op, args);
  return c;
}

inline tf::Tensor Str(const std::string& s) { return tf::Tensor(tf::tstring(s)); }
inline tf::Tensor StrVec(const std::vector<std::string>& v) {
  tf::Tensor t(tf::DT_STRING, tf::TensorShape({static_cast<int64_t>(v.size())}));
  for (size_t i = 0; i < v.size(); ++i) t.flat<tf::tstring>()(i) = v[i];
  return t;
}
template <typename T>
tf::Tensor Scalar(T v) {
  tf::Tensor t(tf::DataTypeToEnum<T>::v(), tf::TensorShape({}));
  t.scalar<T>()() = v;
  return t;
}
template <typename T>
tf::Tensor Vec(const std::vector<T>& v) {
  tf::Tensor t(tf::DataTypeToEnum<T>::v(),
               tf::TensorShape({static_cast<int64_t>(v.size())}));
  for (size_t i = 0; i < v.size(); ++i) t.template flat<T>()(i) = v[i];
  return t;
}
// The only output of a call, as a string.
inline std::string OutStr(Call* c) {
  PBT_CHECK(c->ctx.outputs.size() == 1 && c->ctx.outputs[0], "no output");
  return std::string(c->ctx.outputs[0]->scalar<tf::tstring>()());
}
// A fresh file system.
inline tf::Env* ResetEnv() {
  tf::Env* e = tf::Env::Default();
  e->files.clear();
  e->dirs.clear();
  e->faults = tf::verif::Faults();
  e->next_temp = 0;
  tf::verif::table_misuse.clear();
  return e;
}
}  // namespace tfops
#endif
