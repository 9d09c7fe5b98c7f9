// LIBS: fcp_client pbt
// C18: what on-device computations read and what they report.
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/str_cat.h"
#include "client_fakes.h"
#include "engine_fakes.h"
#include "event_recorder.h"
#include "fcp/client/engine/plan_engine_helpers.h"
#include "fcp/client/engine/tflite_plan_engine.h"
#include "fcp/client/engine/tflite_wrapper.h"
#include "fcp/client/example_iterator_query_recorder.h"
#include "fcp/client/lc_runner.h"
#include "fcp/client/phase_logger_impl.h"
#include "pbt/pbt.h"
#include "runner_box.h"

namespace fc = fcp::client;
namespace fe = fcp::client::engine;
using google::internal::federated::plan::ClientOnlyPlan;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::TensorflowSpec;
using pbt::Case;
using pbt::Src;

namespace {
using Inputs = absl::flat_hash_map<std::string, std::string>;
std::function<absl::StatusOr<fe::OutputTensors>(const std::string&, const Inputs&, const std::vector<std::string>&)> g_model;
}  // namespace

namespace fcp::client::engine {
absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(
    const std::string& model, std::function<bool()>, const InterruptibleRunner::TimingConfig&, LogManager*,
    std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs, std::vector<std::string> output_names,
    const TfLiteInterpreterOptions&, int32_t) {
  return g_model(model, *inputs, output_names);
}
}  // namespace fcp::client::engine

namespace {

struct Flags : fakes::BaseFlags {
  bool tflite = true;
  bool use_tflite_training() const override { return tflite; }
  int64_t condition_polling_period_millis() const override { return 0; }
};

struct Collection {
  ExampleSelector selector;
  std::vector<std::string> examples;
  int fail_at = -1;
  bool fail_once = false;
  bool create_fails = false;
  bool revives = false;  // has more after it reported the end
  absl::Status error;
  int factory = -1;
};

// A source that remembers what it did.
struct Source : fc::ExampleIterator {
  Collection c;
  size_t at = 0;
  bool ended = false;
  std::atomic<int>* live;
  std::atomic<int> inside{0};
  std::mutex* mu;
  std::string* problem;
  std::vector<absl::Status>* errors;
  bool slow = false;
  absl::StatusOr<std::string> Next() override {
    if (inside.fetch_add(1) != 0) Problem("the source is read by two threads at once");
    if (slow) std::this_thread::yield();
    auto r = Do();
    inside--;
    return r;
  }
  absl::StatusOr<std::string> Do() {
    if (ended) {
      Problem("the source is read after its end");
      if (c.revives) return "revived";
      return absl::OutOfRangeError("end");
    }
    if (int(at) == c.fail_at) {
      if (c.fail_once) c.fail_at = -1;
      std::lock_guard<std::mutex> l(*mu);
      errors->push_back(c.error);
      return c.error;
    }
    if (at < c.examples.size()) return c.examples[at++];
    ended = true;
    return absl::OutOfRangeError("end");
  }
  void Problem(const std::string& p) {
    std::lock_guard<std::mutex> l(*mu);
    if (problem->empty()) *problem = p;
  }
  void Close() override {}
  ~Source() override { (*live)--; }
};

struct World {
  std::vector<Collection> collections;
  std::vector<std::unique_ptr<fe::FunctionalExampleIteratorFactory>> factories;
  std::vector<bool> stats;
  std::atomic<int> live{0};
  std::mutex mu;
  std::string problem;
  std::vector<absl::Status> errors;  // errors the sources reported
  std::map<int, int> created;
  bool slow = false;

  Collection* Find(const ExampleSelector& e) {
    for (auto& c : collections) {
      if (c.selector.SerializeAsString() == e.SerializeAsString()) return &c;
    }
    return nullptr;
  }
  absl::StatusOr<std::unique_ptr<fc::ExampleIterator>> Create(const ExampleSelector& e, int factory) {
    std::lock_guard<std::mutex> l(mu);
    Collection* c = Find(e);
    if (!c) {
      problem = "another query: " + e.ShortDebugString();
      return absl::InternalError(problem);
    }
    if (factory >= 0 && c->factory != factory) problem = "another factory answers";
    created[c - &collections[0]]++;
    if (c->create_fails) {
      errors.push_back(c->error);
      return c->error;
    }
    auto s = std::make_unique<Source>();
    s->c = *c;
    s->live = &live;
    s->mu = &mu;
    s->problem = &problem;
    s->errors = &errors;
    s->slow = slow;
    live++;
    return s;
  }
};

void DrawCollections(Src& s, Case& c, World* w, bool faults) {
  int n = s.urange(1, 3);
  for (int i = 0; i < n; ++i) {
    Collection k;
    k.selector.set_collection_uri(absl::StrCat("app:/", s.ident(4), i));
    if (s.flip()) k.selector.mutable_criteria()->set_value(s.bytes(4));
    int m = s.weighted({2, 3, 3, 2});
    if (m == 3) m = s.urange(3, 25);
    for (int j = 0; j < m; ++j) k.examples.push_back(absl::StrCat(i, ":", j, ":", s.bytes(5)));
    if (m > 0 && s.chance(1, 4)) k.examples[s.draw(m)].clear();  // one at most: examples are told apart by content
    k.error = s.of<absl::Status>({absl::InternalError("source"), absl::UnavailableError("later"), absl::CancelledError("stop"), absl::InvalidArgumentError("query")});
    k.error = absl::Status(k.error.code(), absl::StrCat(k.error.message(), i));
    if (faults && s.chance(1, 4)) {
      k.fail_at = s.draw(m + 1);
      k.fail_once = s.flip();
    }
    if (faults && s.chance(1, 10)) k.create_fails = true;
    k.revives = s.flip();
    c.log << "collection " << i << " " << k.selector.collection_uri() << " " << m << " examples";
    if (k.fail_at >= 0) c.log << " fails at " << k.fail_at << (k.fail_once ? " once" : "");
    if (k.create_fails) c.log << " cannot be opened";
    c.log << "\n";
    w->collections.push_back(k);
  }
}

void DrawFactories(Src& s, Case& c, World* w, bool faults) {
  int nf = s.urange(1, 3);
  std::vector<int> masks;
  for (int i = 0; i < nf; ++i) {
    int mask = s.chance(1, 2) ? 7 : int(s.draw(8));
    if (i == nf - 1 && !(faults && s.chance(1, 6))) mask = 7;
    masks.push_back(mask);
    w->stats.push_back(s.chance(3, 4));
    c.log << "factory " << i << " mask " << mask << (w->stats.back() ? " stats" : "") << "\n";
    auto handles = [w, mask](const ExampleSelector& e) {
      Collection* k = w->Find(e);
      return k && ((mask >> (k - &w->collections[0])) & 1);
    };
    w->factories.push_back(std::make_unique<fe::FunctionalExampleIteratorFactory>(
        handles, [w, i](const ExampleSelector& e) { return w->Create(e, i); }, bool(w->stats[i])));
  }
  for (size_t k = 0; k < w->collections.size(); ++k) {
    for (int i = nf - 1; i >= 0; --i) {
      if ((masks[i] >> k) & 1) w->collections[k].factory = i;
    }
  }
}

const char kNoFactory[] = "nobody answers this query";

// Whether st is an error that happened.
bool Known(const World& w, const absl::Status& st) {
  auto same = [&](const absl::Status& e) { return e.message() == kNoFactory ? e.code() == st.code() : e == st; };
  for (auto& e : w.errors) {
    if (same(e)) return true;
  }
  return false;
}
// A source that was cancelled counts as an interruption.
std::set<int> Outcomes(const World& w) {
  std::set<int> r;
  for (auto& e : w.errors) {
    r.insert(int(absl::IsCancelled(e) ? fe::PlanOutcome::kInterrupted : fe::PlanOutcome::kExampleIteratorError));
  }
  return r;
}

// What one run of a computation reads.
struct Reading {
  int collection;
  int threads;
  int budget;      // reads of each thread; -1: until the end
  int after_end;   // further reads after the end
  int retries;     // reads after an error
};

std::vector<Reading> DrawReadings(Src& s, Case& c, const World& w, bool threads) {
  std::vector<Reading> r;
  int n = s.weighted({1, 4, 3, 1});
  for (int i = 0; i < n; ++i) {
    Reading x;
    x.collection = s.draw(w.collections.size());
    x.threads = threads && s.chance(1, 2) ? s.urange(2, 4) : 1;
    x.budget = s.chance(2, 3) ? -1 : int(s.draw(8));
    x.after_end = s.draw(3);
    x.retries = s.draw(3);
    c.log << "read " << x.collection << " threads " << x.threads << " budget " << x.budget << " after end " << x.after_end << " retries " << x.retries << "\n";
    r.push_back(x);
  }
  return r;
}

// Totals the oracle expects.
struct Totals {
  std::mutex mu;
  std::map<std::string, std::pair<int64_t, int64_t>> by_uri;
  int64_t count = 0, bytes = 0;
  std::vector<std::pair<int, int>> queries;  // collection, delivered
  int no_factory = 0;
};

void Read(World* w, fcp::ExternalDatasetProvider* provider, const Reading& r, Totals* totals, std::string* problem) {
  const Collection& k = w->collections[r.collection];
  auto bad = [&](const std::string& p) {
    std::lock_guard<std::mutex> l(totals->mu);
    if (problem->empty()) *problem = absl::StrCat(p, " (collection ", r.collection, ")");
  };
  auto dataset = provider->MakeDataset(k.selector.SerializeAsString());
  if (!dataset.ok()) return bad("no dataset: " + dataset.status().ToString());
  std::unique_ptr<fcp::ExternalDatasetIterator> it = (*dataset)->MakeIterator();
  if (!it) return bad("no iterator");
  if (k.factory < 0 || k.create_fails) {
    std::lock_guard<std::mutex> l(totals->mu);
    for (int i = 0; i < 2; ++i) {
      auto x = it->GetNext();
      if (x.ok() || absl::IsOutOfRange(x.status())) *problem = "a source that cannot be opened does not fail";
    }
    if (k.factory < 0) {
      totals->no_factory++;
      std::lock_guard<std::mutex> l2(w->mu);
      w->errors.push_back(absl::InternalError(kNoFactory));
    }
    return;
  }
  bool stats = w->stats.empty() || w->stats[k.factory];
  std::vector<std::vector<std::string>> got(r.threads);
  std::atomic<int> ends{0}, errors{0};
  auto work = [&](int t) {
    int retries = r.retries;
    bool end = false;
    for (int i = 0; r.budget < 0 || i < r.budget; ++i) {
      auto x = it->GetNext();
      if (x.ok()) {
        if (end) return bad("data after the end");
        got[t].push_back(*x);
        continue;
      }
      if (absl::IsOutOfRange(x.status())) {
        end = true;
        break;
      }
      if (x.status() != k.error) return bad("another error than the source's: " + x.status().ToString());
      errors++;
      if (retries-- == 0) return;
    }
    if (!end) return;
    ends++;
    for (int i = 0; i < r.after_end; ++i) {
      auto x = it->GetNext();
      if (!absl::IsOutOfRange(x.status())) return bad("not ended after the end");
    }
  };
  if (r.threads == 1) {
    work(0);
  } else {
    std::vector<std::thread> ts;
    for (int t = 0; t < r.threads; ++t) ts.emplace_back(work, t);
    for (auto& t : ts) t.join();
  }
  it.reset();
  std::map<std::string, int> index;
  for (size_t i = 0; i < k.examples.size(); ++i) index[k.examples[i]] = i;
  std::set<int> seen;
  int64_t count = 0, bytes = 0;
  for (auto& g : got) {
    int last = -1;
    for (auto& x : g) {
      auto f = index.find(x);
      if (f == index.end()) return bad("an example the source does not have: " + pbt::Quote(x));
      if (f->second <= last) return bad("examples out of order");
      last = f->second;
      if (!seen.insert(last).second) return bad("an example delivered twice");
      count++;
      bytes += x.size();
    }
  }
  for (int i = 0; i < int(seen.size()); ++i) {
    if (!seen.count(i)) return bad("an example was skipped");
  }
  if (ends && count != int64_t(k.examples.size())) return bad("ended early");
  std::lock_guard<std::mutex> l(totals->mu);
  totals->queries.push_back({r.collection, int(count)});
  if (stats) {
    auto& t = totals->by_uri[k.selector.collection_uri()];
    t.first += count;
    t.second += bytes;
    totals->count += count;
    totals->bytes += bytes;
  }
}

// Runs the readings; some of them at the same time.
void ReadAll(World* w, const std::string& token, const std::vector<Reading>& readings, bool together, Totals* totals, std::string* problem) {
  auto parsed = fcp::RandomToken::FromBytes(token);
  auto provider = fcp::ExternalDatasetProviderRegistry::TryLookup(parsed);
  if (!provider.has_value()) {
    *problem = "the token leads nowhere";
    return;
  }
  if ((*provider)->MakeDataset("\xff\xff").ok()) *problem = "an unreadable query was accepted";
  if (together) {
    std::vector<std::thread> ts;
    for (auto& r : readings) ts.emplace_back([&, r] { Read(w, provider->get(), r, totals, problem); });
    for (auto& t : ts) t.join();
  } else {
    for (auto& r : readings) Read(w, provider->get(), r, totals, problem);
  }
}

void CheckTotals(World& w, Totals& t, fakes::DatasetStats& stats, fc::ExampleIteratorQueryRecorder* recorder) {
  PBT_CHECK(w.problem.empty(), w.problem);
  PBT_EQ(w.live.load(), 0, "sources left open");
  PBT_CHECK(stats.total == t.by_uri, "dataset statistics differ from what was delivered");
  if (recorder) {
    auto q = recorder->StopRecordingAndGetQueries();
    std::multiset<std::string> got, want;
    for (auto& x : q.query()) got.insert(absl::StrCat(x.collection_uri(), "|", pbt::Hex(x.criteria().value()), "|", x.example_count()));
    for (auto& x : t.queries) {
      auto& sel = w.collections[x.first].selector;
      want.insert(absl::StrCat(sel.collection_uri(), "|", pbt::Hex(sel.criteria().value()), "|", x.second));
    }
    PBT_CHECK(got == want, "recorded queries differ from those made");
  }
}

std::vector<fe::ExampleIteratorFactory*> List(World& w) {
  std::vector<fe::ExampleIteratorFactory*> l;
  for (auto& f : w.factories) l.push_back(f.get());
  return l;
}

// Datasets read directly, mostly by several threads.
void Datasets(Src& s, Case& c) {
  World w;
  w.slow = true;
  DrawCollections(s, c, &w, s.chance(1, 2));
  DrawFactories(s, c, &w, true);
  auto readings = DrawReadings(s, c, w, true);
  bool together = s.flip();
  fakes::DatasetStats stats;
  fc::ExampleIteratorQueryRecorderImpl recorder{fc::SelectorContext()};
  std::atomic<int> count{0};
  std::atomic<int64_t> bytes{0};
  fe::ExampleIteratorStatus status;
  Inputs inputs;
  std::string name = s.ident(4), problem, token;
  Totals totals;
  {
    auto reg = fe::AddDatasetTokenToInputsForTfLite(List(w), &stats, &recorder, &inputs, name, &count, &bytes, &status);
    PBT_CHECK(inputs.size() == 1 && inputs.count(name), "no token under its name");
    token = inputs[name];
    ReadAll(&w, token, readings, together, &totals, &problem);
  }
  PBT_CHECK(problem.empty(), problem);
  PBT_CHECK(!fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token)).has_value(), "the token outlives the computation");
  CheckTotals(w, totals, stats, &recorder);
  PBT_EQ(int64_t(count), totals.count, "examples counted");
  PBT_EQ(int64_t(bytes), totals.bytes, "bytes counted");
  absl::Status st = status.GetStatus();
  bool any = !w.errors.empty();
  bool threads = together && readings.size() > 1;
  for (auto& r : readings) threads |= r.threads > 1;
  PBT_EQ(!st.ok(), any, "whether a source failed");
  if (any) PBT_CHECK(Known(w, st), "an error no source reported: " + st.ToString());
  c.nontrivial(totals.count > 1 || any);
  if (threads) c.label("several threads");
  if (any) c.label("a source failed");
}

tensorflow::Tensor DrawTensor(Src& s) {
  auto type = s.of<tensorflow::DataType>({tensorflow::DT_FLOAT, tensorflow::DT_INT32, tensorflow::DT_INT64, tensorflow::DT_STRING});
  int n = s.draw(5);
  tensorflow::Tensor t(type, tensorflow::TensorShape({n}));
  for (int i = 0; i < n; ++i) {
    if (type == tensorflow::DT_STRING) t.flat<tensorflow::tstring>()(i) = s.bytes(5);
    else if (type == tensorflow::DT_INT64) t.flat<int64_t>()(i) = int64_t(s.draw(0));
    else t.flat<int32_t>()(i) = int32_t(s.draw(1u << 31));
  }
  return t;
}

std::string Show(const tensorflow::Tensor& t) {
  tensorflow::TensorProto p;
  t.AsProtoField(&p);
  return p.SerializeAsString();
}

// How the stand-in for the model ends.
absl::Status DrawEnd(Src& s) {
  switch (s.weighted({4, 1, 3})) {
    case 0: return absl::OkStatus();
    case 1: return absl::CancelledError("interrupted");
    default: return absl::InvalidArgumentError("model failed");
  }
}

void Models(Src& s, Case& c) {
  World w;
  bool faults = s.chance(1, 2);
  DrawCollections(s, c, &w, faults);
  DrawFactories(s, c, &w, faults);
  auto readings = DrawReadings(s, c, w, s.chance(1, 4));
  bool together = s.chance(1, 5);
  fakes::DatasetStats stats;
  fc::ExampleIteratorQueryRecorderImpl recorder{fc::SelectorContext()};
  bool record = s.chance(3, 4);
  fakes::Log log;
  Flags flags;
  auto timing = fakes::PatientTiming();
  std::string model = s.bytes(6);

  TensorflowSpec spec;
  auto inputs = std::make_unique<Inputs>();
  Inputs want_inputs;
  std::vector<std::string> outputs;
  bool invalid = false;
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    std::string name = absl::StrCat("in", i);
    (*inputs)[name] = want_inputs[name] = s.bytes(5);
    spec.add_input_tensor_specs()->set_name(name);
  }
  n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    outputs.push_back(absl::StrCat("o", s.ident(2), i));
    spec.add_output_tensor_specs()->set_name(outputs.back());
  }
  s.shuffle(&outputs);
  if (faults && s.chance(1, 6)) {
    invalid = true;
    switch (s.draw(5)) {
      case 0: spec.add_input_tensor_specs()->set_name("extra"); break;
      case 1: (*inputs)["extra"] = ""; break;
      case 2: spec.add_output_tensor_specs()->set_name("extra"); break;
      case 3: outputs.push_back("extra"); break;
      default:
        outputs.push_back("one");
        spec.add_output_tensor_specs()->set_name("other");
    }
  }
  std::string token_name = "token" + s.ident(2);
  spec.set_dataset_token_tensor_name(token_name);
  n = s.weighted({3, 1, 1});
  for (int i = 0; i < n; ++i) {
    std::string name = absl::StrCat("const", i);
    tensorflow::Tensor t;
    if (faults && s.chance(1, 6)) {
      t = tensorflow::Tensor(tensorflow::DT_INT32, tensorflow::TensorShape({}));
      invalid = true;
    } else {
      std::string v = s.bytes(6);
      t = tensorflow::Tensor(v);
      want_inputs[name] = v;
    }
    t.AsProtoField(&(*spec.mutable_constant_inputs())[name]);
  }
  absl::Status end = DrawEnd(s);
  std::vector<tensorflow::Tensor> tensors;
  for (size_t i = 0; i < outputs.size(); ++i) tensors.push_back(DrawTensor(s));
  c.log << (invalid ? "invalid spec, " : "") << outputs.size() << " outputs, ends " << end.ToString() << "\n";

  Totals totals;
  std::string problem;
  int runs = 0;
  std::string token;
  g_model = [&](const std::string& m, const Inputs& in, const std::vector<std::string>& out) -> absl::StatusOr<fe::OutputTensors> {
    runs++;
    if (m != model) problem = "another model";
    if (out != outputs) problem = "other outputs";
    Inputs rest = in;
    auto it = rest.find(token_name);
    if (it == rest.end()) {
      problem = "no dataset token";
      return absl::InvalidArgumentError("");
    }
    token = it->second;
    rest.erase(it);
    if (rest != want_inputs) problem = "other inputs";
    ReadAll(&w, token, readings, together, &totals, &problem);
    if (!end.ok()) return end;
    return fe::OutputTensors{outputs, tensors};
  };
  fe::TfLitePlanEngine engine(List(w), [] { return false; }, &log, &stats, &flags, record ? &recorder : nullptr, &timing);
  fe::PlanResult result = engine.RunPlan(spec, model, std::move(inputs), outputs);
  g_model = nullptr;
  PBT_CHECK(problem.empty(), problem);
  c.nontrivial(totals.count > 0 || invalid || !end.ok());
  if (invalid) {
    PBT_CHECK(result.outcome == fe::PlanOutcome::kInvalidArgument, "an invalid specification is not refused as such");
    PBT_CHECK(!result.original_status.ok(), "refused with an OK status");
    PBT_EQ(runs, 0, "runs of the model");
    return;
  }
  PBT_EQ(runs, 1, "runs of the model");
  CheckTotals(w, totals, stats, record ? &recorder : nullptr);
  PBT_CHECK(!fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token)).has_value(), "the token outlives the computation");
  bool any = !w.errors.empty();
  if (end.ok()) {
    PBT_CHECK(result.outcome == fe::PlanOutcome::kSuccess, "a computation that succeeded is reported otherwise: " + result.original_status.ToString());
    PBT_CHECK(result.output_names == outputs, "output names");
    PBT_EQ(result.output_tensors.size(), tensors.size(), "output tensors");
    for (size_t i = 0; i < tensors.size(); ++i) PBT_CHECK(Show(result.output_tensors[i]) == Show(tensors[i]), "output " + outputs[i]);
    PBT_EQ(int64_t(result.example_stats.example_count), totals.count, "example count");
    PBT_EQ(int64_t(result.example_stats.example_size_bytes), totals.bytes, "example bytes");
    c.label("success");
    return;
  }
  PBT_CHECK(result.output_names.empty() && result.output_tensors.empty(), "outputs of a computation that failed");
  if (absl::IsCancelled(end)) {
    PBT_CHECK(result.outcome == fe::PlanOutcome::kInterrupted, "an interruption is reported otherwise");
    c.label("interrupted");
  } else if (any) {
    PBT_CHECK(Outcomes(w).count(int(result.outcome)), "a failing source is reported otherwise");
    PBT_CHECK(Known(w, result.original_status), "an error no source reported: " + result.original_status.ToString());
    c.label("source failure");
  } else {
    PBT_CHECK(result.outcome == fe::PlanOutcome::kTensorflowError, "a failing computation is reported otherwise");
    c.label("computation failure");
  }
  PBT_CHECK(!result.original_status.ok(), "failed with an OK status");
}

struct Env : fc::SimpleTaskEnvironment {
  World* w;
  std::string dir;
  bool satisfied = true;
  std::string session;
  bool want_context = false;
  std::string problem;
  std::string GetBaseDir() override { return dir; }
  std::string GetCacheDir() override { return dir; }
  absl::StatusOr<std::unique_ptr<fc::ExampleIterator>> CreateExampleIterator(const ExampleSelector& e) override {
    problem = "the context of the query was lost";
    return w->Create(e, -1);
  }
  absl::StatusOr<std::unique_ptr<fc::ExampleIterator>> CreateExampleIterator(const ExampleSelector& e, const fc::SelectorContext& ctx) override {
    if (ctx.computation_properties().session_name() != session) problem = "another context for the query";
    return w->Create(e, -1);
  }
  bool TrainingConditionsSatisfied() override { return satisfied; }
};

// Local computations, from the plan file to the published outcome.
void Local(Src& s, Case& c) {
  World w;
  bool faults = s.chance(1, 2);
  DrawCollections(s, c, &w, faults);
  for (auto& k : w.collections) k.factory = 0;
  auto readings = DrawReadings(s, c, w, s.chance(1, 5));
  fakes::Events events;
  fakes::Log log;
  Flags flags;
  Env env;
  env.w = &w;
  env.dir = c.scratch();
  env.session = "session " + s.ident(4);
  env.satisfied = !(faults && s.chance(1, 12));

  ClientOnlyPlan plan;
  enum { kRuns, kNotStarted, kIo, kInvalid, kNoEngine } want = kRuns;
  plan.set_tflite_graph(faults && s.chance(1, 12) ? "" : "model" + s.bytes(3));
  flags.tflite = !(faults && s.chance(1, 12));
  std::string in_dir = "/in/" + s.ident(3), out_dir = "/out/" + s.ident(3);
  Inputs resources;
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) resources[absl::StrCat("r", i)] = "/res/" + s.ident(3);
  Inputs want_inputs;
  bool has_spec = !(faults && s.chance(1, 12)), has_local = !(faults && s.chance(1, 12));
  TensorflowSpec spec;
  if (has_local) {
    auto* lc = plan.mutable_phase()->mutable_local_compute();
    if (s.flip()) {
      lc->set_input_dir_tensor_name("in_dir");
      want_inputs["in_dir"] = in_dir;
      c.log << "input directory, " << n << " resources\n";
    } else {
      auto* m = lc->mutable_multiple_input_resources();
      int known = 0, missing = 0;
      for (int i = 0; i < 4; ++i) {
        if (!s.flip()) continue;
        std::string r = absl::StrCat("r", i), t = absl::StrCat("t", i);
        (*m->mutable_input_resource_tensor_name_map())[r] = t;
        spec.add_input_tensor_specs()->set_name(t);
        if (resources.count(r)) {
          want_inputs[t] = resources[r];
          known++;
        } else {
          missing++;
        }
      }
      if (faults && s.chance(1, 6)) {
        if (has_spec) want = kInvalid;
        c.log << "both, ";
      } else {
        in_dir = "";
      }
      c.log << n << " resources, " << known << " used, " << missing << " missing\n";
      if (missing && !(faults && s.flip())) {
        // Keep the plan satisfiable.
        for (int i = 0; i < 4; ++i) {
          std::string r = absl::StrCat("r", i), t = absl::StrCat("t", i);
          if (m->input_resource_tensor_name_map().count(r) && !resources.count(r)) {
            resources[r] = "/late";
            want_inputs[t] = "/late";
          }
        }
      } else if (missing) {
        want = kInvalid;
      }
    }
    lc->set_output_dir_tensor_name("out_dir");
    want_inputs["out_dir"] = out_dir;
    if (want_inputs.count("in_dir")) spec.add_input_tensor_specs()->set_name("in_dir");
    spec.add_input_tensor_specs()->set_name("out_dir");
  }
  spec.set_dataset_token_tensor_name("token");
  if (has_spec) *plan.mutable_phase()->mutable_tensorflow_spec() = spec;
  if (!has_spec || !has_local) want = kInvalid;
  bool engine = flags.tflite && !plan.tflite_graph().empty();
  if (!engine && has_spec && has_local) want = kNoEngine;
  std::string path = c.scratch() + "/plan";
  int file = faults && s.chance(1, 8) ? s.urange(1, 2) : 0;
  unlink(path.c_str());
  if (file == 1) {
    want = kIo;
  } else {
    std::ofstream out(path, std::ios::binary);
    out << (file == 2 ? std::string("\x0a\xff\xff") : plan.SerializeAsString());
    if (file == 2) want = kInvalid;
  }
  if (!env.satisfied) want = kNotStarted;
  absl::Status end = DrawEnd(s);
  c.log << "expect " << int(want) << ", model ends " << end.ToString() << "\n";

  Totals totals;
  std::string problem;
  int runs = 0;
  g_model = [&](const std::string& m, const Inputs& in, const std::vector<std::string>& out) -> absl::StatusOr<fe::OutputTensors> {
    runs++;
    if (m != plan.tflite_graph()) problem = "another model";
    if (!out.empty()) problem = "outputs of a local computation";
    Inputs rest = in;
    std::string token = rest["token"];
    rest.erase("token");
    if (rest != want_inputs) problem = "other inputs";
    ReadAll(&w, token, readings, false, &totals, &problem);
    if (!end.ok()) return end;
    return fe::OutputTensors{};
  };
  fakes::DatasetStats stats;
  absl::Status got;
  bool real = s.chance(1, 8);
  if (real) {
    got = fc::RunLocalComputation(&env, &events, &log, &flags, env.session, path, in_dir, out_dir, resources);
  } else {
    fc::PhaseLoggerImpl phases(&events, &stats, &log, &flags);
    fc::SelectorContext ctx;
    ctx.mutable_computation_properties()->set_session_name(env.session);
    got = fc::RunLocalComputation(phases, &env, &log, &stats, &flags, path, in_dir, out_dir, resources, ctx);
  }
  g_model = nullptr;
  unlink(path.c_str());
  PBT_CHECK(problem.empty(), problem);
  PBT_CHECK(env.problem.empty(), env.problem);
  PBT_EQ(runs, want == kRuns ? 1 : 0, "runs of the model");
  if (!real) CheckTotals(w, totals, stats, nullptr);
  PBT_CHECK(w.problem.empty(), w.problem);
  std::vector<std::string> names;
  for (auto& e : events.all) names.push_back(e.name);
  std::string all;
  for (auto& x : names) all += x + " ";
  c.nontrivial(want != kRuns || totals.count > 0 || !end.ok());
  std::string last;
  absl::StatusCode code;
  bool any = !w.errors.empty();
  switch (want) {
    case kNotStarted: last = "PublishTaskNotStarted"; code = absl::StatusCode::kCancelled; break;
    case kIo: last = "PublishComputationIOError"; code = absl::StatusCode::kUnknown; break;
    case kInvalid: last = "PublishComputationInvalidArgument"; code = absl::StatusCode::kUnknown; break;
    case kNoEngine: last = ""; code = absl::StatusCode::kUnknown; break;
    default:
      if (end.ok()) {
        last = "PublishComputationCompleted";
        code = absl::StatusCode::kOk;
      } else if (absl::IsCancelled(end)) {
        last = "PublishComputationInterrupted";
        code = absl::StatusCode::kCancelled;
      } else {
        last = any ? "PublishComputationExampleIteratorError" : "PublishComputationTensorflowError";
        code = absl::StatusCode::kUnknown;
        if (any) {
          auto o = Outcomes(w);
          if (o.size() == 2) return;  // sources failed in different ways
          if (o.count(int(fe::PlanOutcome::kInterrupted))) {
            last = "PublishComputationInterrupted";
            code = absl::StatusCode::kCancelled;
          }
        }
      }
  }
  c.label(last.empty() ? "no engine" : last);
  if (code == absl::StatusCode::kUnknown) {
    PBT_CHECK(!got.ok() && !absl::IsCancelled(got), "a failure returned as " + got.ToString());
  } else {
    PBT_CHECK(got.code() == code, "returned " + got.ToString());
  }
  if (want == kNoEngine) {
    PBT_CHECK(std::find(names.begin(), names.end(), "PublishComputationCompleted") == names.end(), "published: " + all);
    return;
  }
  std::vector<std::string> want_names;
  if (want != kNotStarted) want_names.push_back("PublishComputationStarted");
  want_names.push_back(last);
  PBT_CHECK(names == want_names, "published: " + all + "instead of " + last);
  if (last == "PublishComputationCompleted") {
    PBT_CHECK(events.all.back().examples.has_value(), "no example statistics");
    PBT_EQ(int64_t(events.all.back().examples->example_count), totals.count, "example count");
    PBT_EQ(int64_t(events.all.back().examples->example_size_bytes), totals.bytes, "example bytes");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C18", "at least two examples were delivered, or a source, the model or the plan failed",
                   {{"datasets", Datasets, 20000, 200000}, {"models", Models, 40000, 400000}, {"local", Local, 20000, 200000}}, true, 8, 30);
}
