// LIBS: fcp_client pbt
// C19: running graphs and models: what they are given, what comes back, and
// what is left behind when a run is interrupted.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "client_fakes.h"
#include "engine_fakes.h"
#include "fcp/client/engine/simple_plan_engine.h"
#include "fcp/client/engine/tf_wrapper.h"
#include "fcp/client/engine/tflite_wrapper.h"
#include "pbt/pbt.h"
#include "tensorflow/core/public/session.h"
#include "tensorflow/lite/verif_tflite.h"

namespace fc = fcp::client;
namespace fe = fcp::client::engine;
namespace tf = tensorflow;
namespace tl = tflite::verif;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::TensorflowSpec;
using pbt::Case;
using pbt::Src;

namespace {

fc::InterruptibleRunner::TimingConfig Timing() {
  return {.polling_period = absl::Milliseconds(1), .graceful_shutdown_period = absl::Seconds(120), .extended_shutdown_period = absl::Seconds(240)};
}

// When a run is to be interrupted, as the code under test learns it.
struct Interrupt {
  std::atomic<bool> set{false};
  std::atomic<int> seen{0};
  std::function<bool()> Poll() {
    return [this] {
      if (!set) return false;
      seen++;
      return true;
    };
  }
  // Asks for the interruption and lets it be noticed.
  void Ask() {
    set = true;
    for (int i = 0; i < 2000 && !seen; ++i) std::this_thread::sleep_for(std::chrono::microseconds(200));
    for (int i = 0; i < 20; ++i) std::this_thread::yield();
  }
};

tf::Tensor DrawTensor(Src& s) {
  auto type = s.of<tf::DataType>({tf::DT_FLOAT, tf::DT_INT32, tf::DT_INT64, tf::DT_STRING});
  int n = s.draw(4);
  tf::Tensor t(type, tf::TensorShape({n}));
  for (int i = 0; i < n; ++i) {
    if (type == tf::DT_STRING) t.flat<tf::tstring>()(i) = s.bytes(5);
    else if (type == tf::DT_INT64) t.flat<int64_t>()(i) = int64_t(s.draw(0));
    else t.flat<int32_t>()(i) = int32_t(s.draw(1u << 31));
  }
  return t;
}
std::string Show(const tf::Tensor& t) {
  tf::TensorProto p;
  t.AsProtoField(&p);
  return p.SerializeAsString();
}

// ---- graphs ----------------------------------------------------------------

struct GraphRun {
  absl::Status new_session, create, run, close_error;
  bool blocks = false;        // Run only ends once the session is closed
  int interrupt_at = 0;       // 1: before anything, 2: in Create, 3: in Run
  int reads = 0;
  std::vector<tf::Tensor> outputs;
  Interrupt interrupt;
  // recorded
  std::mutex mu;
  std::condition_variable cv;
  std::string problem;
  int sessions = 0, live = 0, creates = 0, runs = 0, closes = 0, running = 0;
  bool closed = false;
  tf::ConfigProto config;
  tf::GraphDef graph;
  std::vector<std::pair<std::string, tf::Tensor>> inputs;
  std::vector<std::string> names, targets;
  std::string token_name, token;
  int delivered = 0;
  int64_t bytes = 0;
  absl::Status source = absl::OkStatus();
  void Bad(const std::string& p) {
    if (problem.empty()) problem = p;
  }
};

struct FakeSession : tf::Session {
  GraphRun* g;
  explicit FakeSession(GraphRun* g) : g(g) {}
  ~FakeSession() override {
    std::lock_guard<std::mutex> l(g->mu);
    g->live--;
    if (g->running) g->Bad("the session is destroyed while it runs");
    if (g->creates && g->create.ok() && !g->closed) g->Bad("the session is destroyed without being closed");
  }
  absl::Status Create(const tf::GraphDef& graph) override {
    if (g->interrupt_at == 2) g->interrupt.set = true;
    std::lock_guard<std::mutex> l(g->mu);
    g->creates++;
    g->graph = graph;
    return g->create;
  }
  absl::Status Close() override {
    std::lock_guard<std::mutex> l(g->mu);
    if (g->closed) g->Bad("the session is closed twice");
    g->closes++;
    g->closed = true;
    g->cv.notify_all();
    return g->running ? g->close_error : absl::OkStatus();
  }
  absl::Status Run(const std::vector<std::pair<std::string, tf::Tensor>>& inputs, const std::vector<std::string>& names,
                   const std::vector<std::string>& targets, std::vector<tf::Tensor>* outputs) override {
    std::unique_lock<std::mutex> l(g->mu);
    if (g->closed) g->Bad("a closed session is run");
    g->running++;
    g->runs++;
    g->inputs = inputs;
    g->names = names;
    g->targets = targets;
    std::string token;
    for (auto& i : inputs) {
      if (i.first == g->token_name && i.second.dtype() == tf::DT_STRING && i.second.NumElements() == 1) token = i.second.scalar<tf::tstring>()();
    }
    g->token = token;
    l.unlock();
    Read(token);
    if (g->interrupt_at == 3) g->interrupt.Ask();
    l.lock();
    if (g->blocks) g->cv.wait(l, [this] { return g->closed; });
    if (g->run.ok()) *outputs = g->outputs;
    g->running--;
    return g->run;
  }
  void Read(const std::string& token) {
    auto provider = token.size() == fcp::kRandomTokenSizeInBytes ? fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token)) : std::nullopt;
    if (!provider.has_value()) {
      std::lock_guard<std::mutex> l(g->mu);
      return g->Bad("the dataset token leads nowhere");
    }
    ExampleSelector e;
    e.set_collection_uri("app:/a");
    auto d = (*provider)->MakeDataset(e.SerializeAsString());
    if (!d.ok()) {
      std::lock_guard<std::mutex> l(g->mu);
      return g->Bad("no dataset");
    }
    auto it = (*d)->MakeIterator();
    for (int i = 0; i < g->reads; ++i) {
      auto x = it->GetNext();
      if (!x.ok()) {
        if (!absl::IsOutOfRange(x.status())) g->source = x.status();
        break;
      }
      g->delivered++;
      g->bytes += x->size();
    }
  }
};

absl::Status DrawError(Src& s, bool range) {
  static const std::vector<absl::StatusCode> codes = {absl::StatusCode::kInvalidArgument, absl::StatusCode::kInternal, absl::StatusCode::kCancelled,
                                                      absl::StatusCode::kUnknown, absl::StatusCode::kAborted, absl::StatusCode::kResourceExhausted,
                                                      absl::StatusCode::kFailedPrecondition, absl::StatusCode::kUnavailable, absl::StatusCode::kOutOfRange};
  return absl::Status(codes[s.draw(codes.size() - (range ? 0 : 1))], "tf says " + s.ident(4));
}

void Graphs(Src& s, Case& c) {
  GraphRun g;
  bool faults = s.chance(2, 3);
  // The graph and its options.
  tf::GraphDef graph;
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    auto* node = graph.add_node();
    node->set_name(s.ident(4));
    node->set_op(s.ident(3));
  }
  graph.set_version(s.draw(5));
  std::string graph_bytes = graph.SerializeAsString();
  google::protobuf::Any any;
  tf::ConfigProto config;
  bool own_config = false, bad_config = false, bad_graph = false;
  switch (s.weighted({4, 2, 4, 1})) {
    case 0: break;
    case 1: any.PackFrom(config); break;
    case 2:
      config.set_intra_op_parallelism_threads(s.draw(4));
      config.set_allow_soft_placement(s.flip());
      if (s.flip()) config.mutable_graph_options()->set_timeline_step(s.draw(3));
      if (s.flip()) config.mutable_experimental()->set_executor_type(s.ident(3));
      any.PackFrom(config);
      own_config = config.ByteSizeLong() > 0;
      break;
    default:
      if (!faults) break;
      bad_config = true;
      if (s.flip()) {
        any.PackFrom(graph);
      } else {
        any.set_type_url("type.googleapis.com/tensorflow.ConfigProto");
        any.set_value("\xff\xff");
      }
  }
  if (faults && s.chance(1, 10)) {
    graph_bytes = "\x0a\xff\xff";
    bad_graph = true;
  }
  if (faults && s.chance(1, 10)) g.new_session = DrawError(s, true);
  if (faults && s.chance(1, 10)) g.create = DrawError(s, true);
  if (faults && s.chance(1, 3)) g.run = DrawError(s, true);
  if (faults && s.chance(1, 3)) {
    g.interrupt_at = s.urange(1, 3);
    if (g.interrupt_at != 1) g.blocks = s.chance(3, 4);
    if (g.interrupt_at == 1) g.interrupt.set = true;
    if (s.flip()) g.close_error = absl::AbortedError("closing");
  }
  // Inputs, outputs and targets.
  TensorflowSpec spec;
  auto inputs = std::make_unique<std::vector<std::pair<std::string, tf::Tensor>>>();
  std::map<std::string, std::string> want;
  n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    std::string name = absl::StrCat("in", i);
    auto t = DrawTensor(s);
    want[name] = Show(t);
    inputs->push_back({name, t});
    spec.add_input_tensor_specs()->set_name(name);
  }
  std::vector<std::string> outputs, targets;
  n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    outputs.push_back(absl::StrCat("o", s.ident(2), i));
    spec.add_output_tensor_specs()->set_name(outputs.back());
    g.outputs.push_back(DrawTensor(s));
  }
  s.shuffle(&outputs);
  n = s.draw(3);
  for (int i = 0; i < n; ++i) {
    targets.push_back(absl::StrCat("t", s.ident(2), i));
    spec.add_target_node_names(targets.back());
  }
  bool invalid = false, bad_constant = false;
  if (faults && s.chance(1, 10)) {
    invalid = true;
    switch (s.draw(4)) {
      case 0: spec.add_input_tensor_specs()->set_name("extra"); break;
      case 1: inputs->push_back({"extra", tf::Tensor("x")}); break;
      case 2: spec.add_output_tensor_specs()->set_name("extra"); break;
      default: outputs.push_back("extra");
    }
  }
  n = s.weighted({3, 1, 1});
  for (int i = 0; i < n; ++i) {
    std::string name = absl::StrCat("const", i);
    auto t = DrawTensor(s);
    auto* p = &(*spec.mutable_constant_inputs())[name];
    t.AsProtoField(p);
    if (faults && s.chance(1, 8)) {
      p->set_dtype(tf::DT_INVALID);
      bad_constant = true;
    }
    want[name] = Show(t);
  }
  spec.set_dataset_token_tensor_name(g.token_name = "token" + s.ident(2));
  // The data.
  std::vector<std::string> examples;
  n = s.draw(6);
  for (int i = 0; i < n; ++i) examples.push_back(s.bytes(5));
  g.reads = s.draw(8);
  int fail_at = faults && s.chance(1, 4) ? int(s.draw(n + 1)) : -1;
  absl::Status source_error = s.of<absl::Status>({absl::InternalError("source"), absl::CancelledError("source stops"), absl::UnavailableError("source later")});
  fe::FunctionalExampleIteratorFactory factory([&](const ExampleSelector&) -> absl::StatusOr<std::unique_ptr<fc::ExampleIterator>> {
    auto p = std::make_unique<fakes::Playback>();
    p->examples = examples;
    p->fail_at = fail_at;
    p->error = source_error;
    return p;
  });
  c.log << examples.size() << " examples, " << g.reads << " read, source fails at " << fail_at << " (" << source_error.ToString() << ")\n"
        << (invalid ? "invalid spec; " : "") << (bad_constant ? "bad constant; " : "") << (bad_config ? "bad config; " : "") << (own_config ? "own config; " : "") << (bad_graph ? "bad graph; " : "")
        << "session " << g.new_session.ToString() << ", create " << g.create.ToString() << ", run " << g.run.ToString() << ", interrupted at " << g.interrupt_at
        << (g.blocks ? ", blocks" : "") << ", " << outputs.size() << " outputs, " << want.size() << " inputs\n";

  tf::verif::g_new_session = [&](const tf::SessionOptions& o, tf::Session** out) {
    std::lock_guard<std::mutex> l(g.mu);
    g.sessions++;
    g.config = o.config;
    if (!g.new_session.ok()) return g.new_session;
    g.live++;
    *out = new FakeSession(&g);
    return absl::OkStatus();
  };
  fakes::Log log;
  fakes::DatasetStats stats;
  auto timing = Timing();
  fe::SimplePlanEngine engine({&factory}, g.interrupt.Poll(), &log, &stats, nullptr, &timing);
  fe::PlanResult r = engine.RunPlan(spec, graph_bytes, any, std::move(inputs), outputs);
  tf::verif::g_new_session = nullptr;

  PBT_CHECK(g.problem.empty(), g.problem);
  PBT_EQ(g.live, 0, "sessions left behind");
  PBT_EQ(g.running, 0, "runs still going on");
  bool fails_early = invalid || bad_config || !g.new_session.ok() || bad_graph || !g.create.ok() || bad_constant;
  c.nontrivial(fails_early || !g.run.ok() || g.interrupt_at || g.delivered > 0 || own_config);
  if (r.outcome == fe::PlanOutcome::kSuccess) {
    PBT_CHECK(r.original_status.ok(), "succeeded with " + r.original_status.ToString());
    PBT_EQ(r.output_tensors.size(), r.output_names.size(), "outputs of a computation that succeeded");
  } else {
    PBT_CHECK(!r.original_status.ok(), "failed with an OK status");
    PBT_CHECK(r.output_names.empty() && r.output_tensors.empty(), "outputs of a computation that failed");
  }
  if (invalid) {
    PBT_CHECK(r.outcome == fe::PlanOutcome::kInvalidArgument, "an invalid specification is not refused as such");
    PBT_EQ(g.runs, 0, "runs");
    return;
  }
  if (fails_early) {
    PBT_EQ(g.runs, 0, "runs");
    PBT_CHECK(r.outcome == fe::PlanOutcome::kTensorflowError, "a graph that cannot be set up is reported as " + absl::StrCat(int(r.outcome)));
    c.label("set-up fails");
    return;
  }
  if (own_config) PBT_CHECK(g.config.SerializeAsString() == config.SerializeAsString(), "other session options");
  PBT_CHECK(g.graph.SerializeAsString() == graph.SerializeAsString(), "another graph");
  if (g.interrupt_at == 1 || g.interrupt_at == 2) {
    PBT_EQ(g.runs, 0, "runs of an interrupted computation");
    PBT_CHECK(r.outcome == fe::PlanOutcome::kInterrupted, "an interruption is reported otherwise");
    c.label("interrupted before");
    return;
  }
  PBT_EQ(g.runs, 1, "runs");
  PBT_EQ(g.closes, 1, "closed");
  PBT_CHECK(!fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(g.token)).has_value(), "the dataset can still be reached");
  std::map<std::string, std::string> got;
  std::string token;
  for (auto& i : g.inputs) {
    PBT_CHECK(got.emplace(i.first, Show(i.second)).second, "two inputs named " + i.first);
  }
  PBT_CHECK(got.count(g.token_name), "no dataset token");
  got.erase(g.token_name);
  PBT_CHECK(got == want, "other inputs");
  PBT_CHECK(g.names == outputs, "other outputs requested");
  PBT_CHECK(g.targets == targets, "other targets");
  if (g.interrupt_at == 3 && (g.blocks || r.outcome == fe::PlanOutcome::kInterrupted)) {
    PBT_CHECK(r.outcome == fe::PlanOutcome::kInterrupted, "an interruption is reported otherwise");
    c.label("interrupted");
    return;
  }
  // A graph may end itself early; it succeeded then if no outputs are missing.
  if (absl::IsOutOfRange(g.run) && !outputs.empty()) {
    PBT_CHECK(r.outcome == fe::PlanOutcome::kTensorflowError || r.outcome == fe::PlanOutcome::kExampleIteratorError || (absl::IsCancelled(g.source) && r.outcome == fe::PlanOutcome::kInterrupted),
              "a computation without its outputs is reported as " + absl::StrCat(int(r.outcome)));
    c.label("graph ends early");
    return;
  }
  if (!g.run.ok() && !absl::IsOutOfRange(g.run)) {
    if (g.source.ok()) {
      PBT_CHECK(r.outcome == fe::PlanOutcome::kTensorflowError, "a failing computation is reported otherwise");
      PBT_CHECK(absl::StrContains(r.original_status.message(), g.run.message()), "the error of the computation is lost");
    } else {
      PBT_CHECK(r.outcome == (absl::IsCancelled(g.source) ? fe::PlanOutcome::kInterrupted : fe::PlanOutcome::kExampleIteratorError), "a failing source is reported otherwise");
      PBT_CHECK(r.original_status == g.source, "the error of the source is lost");
    }
    c.label("run fails");
    return;
  }
  PBT_CHECK(r.outcome == fe::PlanOutcome::kSuccess, "a computation that succeeded is reported otherwise");
  PBT_CHECK(r.output_names == outputs, "output names");
  PBT_EQ(r.example_stats.example_count, g.delivered, "example count");
  PBT_EQ(int64_t(r.example_stats.example_size_bytes), g.bytes, "example bytes");
  if (g.run.ok()) {
    PBT_EQ(r.output_tensors.size(), g.outputs.size(), "outputs");
    for (size_t i = 0; i < g.outputs.size(); ++i) PBT_CHECK(Show(r.output_tensors[i]) == Show(g.outputs[i]), "an output differs");
    c.label("success");
  } else {
    c.label("graph ends early");
  }
}

// ---- models ----------------------------------------------------------------

struct ModelRun {
  tl::Script script;
  Interrupt interrupt;
  std::string model;
  absl::flat_hash_map<std::string, std::string> inputs;
  std::vector<std::string> outputs;
  fe::TfLiteInterpreterOptions options;
  int threads = 1;
  int interrupt_at = -1;  // stage; kStages: before anything
  bool missing = false, mistyped = false;
  absl::StatusOr<fe::OutputTensors> result = absl::UnknownError("not run");
};

// Leaves non-zero bytes where the next call keeps its variables.
__attribute__((noinline)) void DirtyStack() {
  volatile char junk[16384];
  for (size_t i = 0; i < sizeof(junk); ++i) junk[i] = 0x5a;
}

void DrawModel(Src& s, Case& c, int index, ModelRun* m) {
  bool faults = s.chance(2, 3);
  m->model = absl::StrCat("model", index, s.bytes(3));
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    std::string name = absl::StrCat("in", i);
    TfLiteType type = kTfLiteString;
    if (faults && s.chance(1, 12)) {
      type = kTfLiteFloat32;
      m->mistyped = true;
    }
    m->script.inputs.push_back({name, type});
    if (faults && s.chance(1, 12)) m->missing = true;
    else m->inputs[name] = s.bytes(6);
  }
  if (s.flip()) m->inputs["unused"] = "value";
  n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    m->outputs.push_back(absl::StrCat("out", s.ident(2), i));
    if (faults && s.chance(1, 12)) m->script.outputs.push_back(absl::InternalError("cannot convert " + s.ident(3)));
    else m->script.outputs.push_back(DrawTensor(s));
  }
  if (faults && s.chance(1, 10)) {
    if (!m->outputs.empty() && s.flip()) m->outputs.pop_back();
    else m->outputs.push_back("more");
  }
  m->options.use_builtin_op_resolver_with_default_delegates = s.flip();
  m->threads = s.urange(0, 8);
  n = s.weighted({2, 3, 2});
  for (int i = 0; i < n; ++i) {
    std::string text = absl::StrCat("error ", index, ".", i, " ", s.ident(4), "%s%n");
    if (s.chance(1, 6)) text += std::string(s.urange(900, 2000), 'x');
    m->script.messages.push_back(text);
  }
  if (faults && s.chance(1, 12)) m->script.loads = false;
  if (faults && s.chance(1, 6)) m->script.fails = s.of<tl::Stage>({tl::kBuild, tl::kModify, tl::kAllocate});
  if (faults && s.chance(1, 3)) m->script.invoke = TfLiteStatus(s.urange(1, 8));
  if (s.chance(1, 2)) {
    m->interrupt_at = s.chance(1, 10) ? int(tl::kStages) : int(s.draw(tl::kStages));
    m->script.until_cancelled = m->interrupt_at <= tl::kInvoke && s.chance(3, 4);
    m->script.between_ops = s.flip();
    bool wait = s.chance(2, 3);
    if (m->interrupt_at == tl::kStages) m->interrupt.set = true;
    // A stage may never be reached, or be reached again.
    m->script.at = [m, wait](tl::Stage at) {
      if (at < m->interrupt_at || m->interrupt.set) return;
      if (wait) m->interrupt.Ask();
      else m->interrupt.set = true;
    };
  }
  c.log << "model " << index << ": " << m->script.inputs.size() << " inputs" << (m->missing ? " one missing" : "") << (m->mistyped ? " one mistyped" : "") << ", "
        << m->script.outputs.size() << "/" << m->outputs.size() << " outputs, " << (m->script.loads ? "" : "does not load, ") << "fails at " << int(m->script.fails) << ", invoke " << int(m->script.invoke)
        << ", " << m->script.messages.size() << " messages, interrupted at " << m->interrupt_at << (m->script.until_cancelled ? " runs until then" : "") << (m->script.between_ops ? " between ops" : "") << "\n";
}

void CheckModel(Case& c, ModelRun* m) {
  auto& sc = m->script;
  PBT_CHECK(sc.problem.empty(), sc.problem);
  PBT_CHECK(!sc.endless, "a computation that was to be interrupted goes on");
  PBT_EQ(sc.live, 0, "parts of the runtime left behind");
  const absl::Status st = m->result.status();
  if (m->result.ok()) {
    PBT_EQ(sc.invokes, 1, "invocations");
  }
  if (m->interrupt_at == tl::kStages) {
    PBT_EQ(sc.invokes, 0, "invocations of an interrupted computation");
    PBT_CHECK(absl::IsCancelled(st), "an interruption is reported as " + st.ToString());
    return;
  }
  bool started = !sc.loads || sc.fails < tl::kStages || m->missing || m->mistyped;
  if (sc.until_cancelled && m->interrupt.set && sc.invokes) {
    PBT_CHECK(absl::IsCancelled(st), "an interruption is reported as " + st.ToString());
    c.label("interrupted");
    return;
  }
  if (m->interrupt.set && absl::IsCancelled(st)) {
    c.label("interrupted");
    return;
  }
  PBT_CHECK(!absl::IsCancelled(st), "reported as interrupted: " + st.ToString());
  std::string first = sc.messages.empty() ? "" : sc.messages[0].substr(0, 500);
  if (started) {
    PBT_EQ(sc.invokes, 0, "invocations");
    PBT_CHECK(absl::IsInvalidArgument(st), "a model that cannot be set up is reported as " + st.ToString());
    if (sc.loads && sc.fails < tl::kStages) PBT_CHECK(absl::StrContains(st.message(), first), "the first error is lost: " + st.ToString());
    c.label("set-up fails");
    return;
  }
  PBT_EQ(sc.invokes, 1, "invocations");
  PBT_EQ(sc.threads, m->threads, "threads");
  PBT_EQ(sc.default_delegates, m->options.use_builtin_op_resolver_with_default_delegates, "default delegates");
  for (auto& i : sc.inputs) {
    PBT_CHECK(sc.assigned[i.first] == std::vector<std::string>{m->inputs.at(i.first)}, "input " + i.first);
  }
  if (sc.invoke != kTfLiteOk) {
    PBT_CHECK(!st.ok(), "a failing computation succeeds");
    if (sc.invoke == kTfLiteError) PBT_CHECK(absl::IsInvalidArgument(st) && absl::StrContains(st.message(), first), "the first error is lost: " + st.ToString());
    c.label("invocation fails");
    return;
  }
  if (m->outputs.size() != sc.outputs.size()) {
    PBT_CHECK(absl::IsInvalidArgument(st), "another number of outputs is reported as " + st.ToString());
    c.label("another number of outputs");
    return;
  }
  for (auto& o : sc.outputs) {
    if (o.ok()) continue;
    PBT_CHECK(absl::IsInvalidArgument(st), "an output that cannot be read is reported as " + st.ToString());
    PBT_CHECK(absl::StrContains(st.message(), o.status().message()), "the error is lost");
    c.label("unreadable output");
    return;
  }
  PBT_CHECK(st.ok(), "a computation that succeeded is reported as " + st.ToString());
  PBT_CHECK(m->result->output_tensor_names == m->outputs, "output names");
  PBT_EQ(m->result->output_tensors.size(), sc.outputs.size(), "outputs");
  for (size_t i = 0; i < sc.outputs.size(); ++i) PBT_CHECK(Show(m->result->output_tensors[i]) == Show(*sc.outputs[i]), "an output differs");
  c.label("success");
}

void Models(Src& s, Case& c) {
  int n = s.chance(1, 4) ? s.urange(2, 3) : 1;
  std::vector<std::unique_ptr<ModelRun>> runs;
  {
    std::lock_guard<std::mutex> l(tl::g_mu);
    tl::g_scripts.clear();
    tl::g_problem.clear();
  }
  bool nontrivial = n > 1;
  for (int i = 0; i < n; ++i) {
    runs.push_back(std::make_unique<ModelRun>());
    DrawModel(s, c, i, runs.back().get());
    std::lock_guard<std::mutex> l(tl::g_mu);
    tl::g_scripts[runs.back()->model] = &runs.back()->script;
    auto& m = *runs.back();
    nontrivial |= m.interrupt_at >= 0 || !m.script.loads || m.script.fails < tl::kStages || m.script.invoke != kTfLiteOk || !m.outputs.empty();
  }
  c.nontrivial(nontrivial);
  fakes::Log log;
  auto timing = Timing();
  auto run = [&](ModelRun* m) {
    DirtyStack();
    m->result = fe::RunTfLiteModelThreadSafe(m->model, m->interrupt.Poll(), timing, &log, std::make_unique<absl::flat_hash_map<std::string, std::string>>(m->inputs),
                                             m->outputs, m->options, m->threads);
  };
  if (n == 1) {
    run(runs[0].get());
  } else {
    std::vector<std::thread> ts;
    for (auto& r : runs) ts.emplace_back(run, r.get());
    for (auto& t : ts) t.join();
    c.label("several at once");
  }
  std::lock_guard<std::mutex> l(tl::g_mu);
  PBT_CHECK(tl::g_problem.empty(), tl::g_problem);
  PBT_EQ(tl::g_delegates.size(), size_t(0), "delegates left behind");
  for (auto& r : runs) CheckModel(c, r.get());
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C19", "a fault, an interruption, delivered data, options of its own, several models at once, or a model with outputs",
                   {{"graphs", Graphs, 15000, 150000}, {"models", Models, 15000, 150000}}, true, 8, 40);
}
