// LIBS: fcp_client fcp_secagg_client fcp_secagg_server fcp_secagg_shared fcp_tracing fcp_base pbt
// C16: complete client runs, from the first request to the returned result.
#include <dirent.h>
#include <sys/stat.h>
#include <unistd.h>

#include <atomic>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#define VERIF_FSFAULT_DEFINE
#include "fsfault.h"

#include "absl/strings/str_cat.h"
#include "absl/time/clock.h"
#include "client_fakes.h"
#include "engine_fakes.h"
#include "event_recorder.h"
#include "fake_http.h"
#include "fc_server.h"
#include "fc_session.h"
#include "fcp/base/digest.h"
#include "fcp/client/engine/plan_engine_helpers.h"
#include "fcp/client/engine/tflite_plan_engine.h"
#include "fcp/client/engine/tflite_wrapper.h"
#include "fcp/client/example_query_result.pb.h"
#include "fcp/client/fl_runner.h"
#include "fcp/client/opstats/pds_backed_opstats_db.h"
#include "fcp/protos/opstats.pb.h"
#include "fcp/protos/plan.pb.h"
#include "fcp/protos/population_eligibility_spec.pb.h"
#include "pbt/pbt.h"
#include "secagg_world.h"

namespace cl = fcp::client;
namespace fe = fcp::client::engine;
namespace fc = fakes::fc;
namespace fh = fakes::fh;
using cl::opstats::OperationalStats;
using fakes::AggType;
using fakes::Code;
using fakes::Fault;
using fakes::FcServer;
using fakes::Offer;
using fakes::Reply;
using fakes::Seen;
using fakes::ServerTask;
using fakes::TensorOut;
using fcp::client::ExampleQueryResult;
using google::internal::federated::plan::ClientOnlyPlan;
using google::internal::federated::plan::ExampleQuerySpec;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::PopulationEligibilitySpec;
using google::internal::federatedml::v2::TaskEligibilityInfo;
using pbt::Case;
using pbt::Src;
using Kind = OperationalStats::Event;
using TaskInfo = PopulationEligibilitySpec::TaskInfo;

// Waiting between polls takes no real time.
extern "C" void ABSL_INTERNAL_C_SYMBOL(AbslInternalSleepFor)(absl::Duration) { usleep(100); }

namespace {
using Inputs = absl::flat_hash_map<std::string, std::string>;
std::function<absl::StatusOr<fe::OutputTensors>(const std::string&, const Inputs&, const std::vector<std::string>&)> g_model;
}  // namespace

namespace fcp::client::engine {
absl::StatusOr<OutputTensors> RunTfLiteModelThreadSafe(
    const std::string& model, std::function<bool()>, const InterruptibleRunner::TimingConfig&, LogManager*,
    std::unique_ptr<absl::flat_hash_map<std::string, std::string>> inputs, std::vector<std::string> output_names,
    const TfLiteInterpreterOptions&, int32_t) {
  return g_model(model, *inputs, output_names);
}
}  // namespace fcp::client::engine

namespace {

struct Flags : fakes::SessionFlags {
  bool phases = false, record = false, id = false, light_id = false, conf_context = false;
  int64_t cache = 0;
  bool use_tflite_training() const override { return true; }
  int64_t condition_polling_period_millis() const override { return 0; }
  int64_t tf_execution_teardown_grace_period_millis() const override { return 600000; }
  int64_t tf_execution_teardown_extended_period_millis() const override { return 1200000; }
  bool enable_phase_stats_logging() const override { return phases; }
  bool enable_native_example_query_recording() const override { return record; }
  bool enable_computation_id() const override { return id; }
  bool enable_lightweight_computation_id() const override { return light_id; }
  bool confidential_agg_in_selector_context() const override { return conf_context; }
  int64_t max_resource_cache_size_bytes() const override { return cache; }
};

// The published events that have a counterpart in the history.
const std::vector<std::pair<std::string, Kind::EventKind>>& Counterparts() {
  static const auto* v = new std::vector<std::pair<std::string, Kind::EventKind>>{
      {"PublishTaskNotStarted", Kind::EVENT_KIND_TRAIN_NOT_STARTED},
      {"PublishEligibilityEvalCheckin", Kind::EVENT_KIND_ELIGIBILITY_CHECKIN_STARTED},
      {"PublishEligibilityEvalCheckinIoError", Kind::EVENT_KIND_ELIGIBILITY_CHECKIN_ERROR_IO},
      {"PublishEligibilityEvalCheckinClientInterrupted", Kind::EVENT_KIND_ELIGIBILITY_CHECKIN_CLIENT_INTERRUPTED},
      {"PublishEligibilityEvalCheckinServerAborted", Kind::EVENT_KIND_ELIGIBILITY_CHECKIN_SERVER_ABORTED},
      {"PublishEligibilityEvalNotConfigured", Kind::EVENT_KIND_ELIGIBILITY_DISABLED},
      {"PublishEligibilityEvalRejected", Kind::EVENT_KIND_ELIGIBILITY_REJECTED},
      {"PublishEligibilityEvalPlanUriReceived", Kind::EVENT_KIND_ELIGIBILITY_PLAN_URI_RECEIVED},
      {"PublishEligibilityEvalPlanReceived", Kind::EVENT_KIND_ELIGIBILITY_ENABLED},
      {"PublishEligibilityEvalComputationStarted", Kind::EVENT_KIND_ELIGIBILITY_COMPUTATION_STARTED},
      {"PublishEligibilityEvalComputationCompleted", Kind::EVENT_KIND_ELIGIBILITY_COMPUTATION_FINISHED},
      {"PublishMultipleTaskAssignmentsStarted", Kind::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_STARTED},
      {"PublishMultipleTaskAssignmentsCompleted", Kind::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_COMPLETED},
      {"PublishMultipleTaskAssignmentsPartialCompleted", Kind::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_PARTIAL_COMPLETED},
      {"PublishMultipleTaskAssignmentsTurnedAway", Kind::EVENT_KIND_MULTIPLE_TASK_ASSIGNMENTS_REJECTED},
      {"PublishCheckin", Kind::EVENT_KIND_CHECKIN_STARTED},
      {"PublishCheckinIoError", Kind::EVENT_KIND_CHECKIN_ERROR_IO},
      {"PublishCheckinClientInterrupted", Kind::EVENT_KIND_CHECKIN_CLIENT_INTERRUPTED},
      {"PublishCheckinServerAborted", Kind::EVENT_KIND_CHECKIN_SERVER_ABORTED},
      {"PublishCheckinInvalidPayload", Kind::EVENT_KIND_CHECKIN_ERROR_INVALID_PAYLOAD},
      {"PublishRejected", Kind::EVENT_KIND_CHECKIN_REJECTED},
      {"PublishCheckinPlanUriReceived", Kind::EVENT_KIND_CHECKIN_PLAN_URI_RECEIVED},
      {"PublishCheckinFinishedV2", Kind::EVENT_KIND_CHECKIN_ACCEPTED},
      {"PublishComputationStarted", Kind::EVENT_KIND_COMPUTATION_STARTED},
      {"PublishComputationInvalidArgument", Kind::EVENT_KIND_COMPUTATION_ERROR_INVALID_ARGUMENT},
      {"PublishComputationIOError", Kind::EVENT_KIND_COMPUTATION_ERROR_IO},
      {"PublishComputationExampleIteratorError", Kind::EVENT_KIND_COMPUTATION_ERROR_EXAMPLE_ITERATOR},
      {"PublishComputationTensorflowError", Kind::EVENT_KIND_COMPUTATION_ERROR_TENSORFLOW},
      {"PublishComputationInterrupted", Kind::EVENT_KIND_COMPUTATION_CLIENT_INTERRUPTED},
      {"PublishComputationCompleted", Kind::EVENT_KIND_COMPUTATION_FINISHED},
      {"PublishResultUploadStarted", Kind::EVENT_KIND_RESULT_UPLOAD_STARTED},
      {"PublishResultUploadIOError", Kind::EVENT_KIND_RESULT_UPLOAD_ERROR_IO},
      {"PublishResultUploadClientInterrupted", Kind::EVENT_KIND_RESULT_UPLOAD_CLIENT_INTERRUPTED},
      {"PublishResultUploadServerAborted", Kind::EVENT_KIND_RESULT_UPLOAD_SERVER_ABORTED},
      {"PublishResultUploadCompleted", Kind::EVENT_KIND_RESULT_UPLOAD_FINISHED},
      {"PublishFailureUploadStarted", Kind::EVENT_KIND_FAILURE_UPLOAD_STARTED},
      {"PublishFailureUploadIOError", Kind::EVENT_KIND_FAILURE_UPLOAD_ERROR_IO},
      {"PublishFailureUploadClientInterrupted", Kind::EVENT_KIND_FAILURE_UPLOAD_CLIENT_INTERRUPTED},
      {"PublishFailureUploadServerAborted", Kind::EVENT_KIND_FAILURE_UPLOAD_SERVER_ABORTED},
      {"PublishFailureUploadCompleted", Kind::EVENT_KIND_FAILURE_UPLOAD_FINISHED},
  };
  return *v;
}

enum Trouble {
  kFine,
  kNoIterator,    // the source cannot be opened
  kIteratorFails,
  kModelFails,
  kInterrupted,   // the computation notices an interruption
  kLateAbort,     // the interruption comes, but the computation ends well
  kBadPlan,       // does not parse
  kNoRouter,
  kNoAggregation,
  kNoOutputFile,
  kOddOutput,     // an output that cannot be aggregated
};
const char* kTroubles[] = {"", "no iterator", "iterator fails", "model fails", "interrupted", "late abort", "bad plan", "no router", "no aggregation", "no output file", "odd output"};

struct Job {
  int i = 0;
  std::string name;
  bool query = false, multi = false;
  AggType type = fakes::kSimple;
  Trouble trouble = kFine;
  std::string plan_bytes, init;
  // Queries: one answer each. Models: the examples.
  std::vector<std::string> examples;
  std::vector<ExampleSelector> selectors;
  std::map<std::string, TensorOut> tensors;  // the result of a query
  bool has_file = false;                     // the model writes a checkpoint
  std::string file;                          // with this content
  std::map<std::string, std::vector<uint64_t>> secure;
  std::map<std::string, tensorflow::DataType> types;
  std::map<std::string, std::vector<int64_t>> dims;
  std::unique_ptr<sim::World> world;
  std::unique_ptr<fcp::confidential_compute::MessageDecryptor> decryptor;
  std::string config;
  std::vector<std::string> criteria;
  // What happened.
  int opened = 0, modelled = 0, completed = 0;
  bool said = false;
  int nothing = 0;
  cl::ExampleIteratorQueries queries;
  bool sa_fault = false, unmask_fault = false, unmasked = false;
  std::string masked, plain;
  bool has_plain = false;
  int secagg_aborts = 0;
};

bool Computes(const Job& j, const Flags& f) {
  bool no_file = j.trouble == kNoOutputFile && j.query && f.wire;
  if (j.trouble != kFine && j.trouble != kLateAbort && !no_file) return false;
  // A plan that does not produce the new format fails while it is required.
  if (!j.query && f.wire && !f.untie) return false;
  return true;
}

struct Policy {
  int kind = 0;  // 0 data availability, 1 model, 2 unknown
  int have = 0, need = 0;
  bool broken = false;
  std::set<std::string> chosen;  // by the model
};

struct Forwarder : fh::HttpClient {
  fakes::Http* http;
  std::unique_ptr<fh::HttpRequestHandle> EnqueueRequest(std::unique_ptr<fh::HttpRequest> r) override { return http->EnqueueRequest(std::move(r)); }
  absl::Status PerformRequests(std::vector<std::pair<fh::HttpRequestHandle*, fh::HttpRequestCallback*>> r) override { return http->PerformRequests(std::move(r)); }
};

std::string ReadFile(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream ss;
  ss << in.rdbuf();
  return ss.str();
}

// The history as it is on disk now.
std::optional<cl::opstats::OpStatsSequence> History(const std::string& base) {
  std::string d = ReadFile(absl::StrCat(base, "/", cl::opstats::PdsBackedOpStatsDb::kParentDir, "/", cl::opstats::PdsBackedOpStatsDb::kDbFileName));
  cl::opstats::OpStatsSequence s;
  if (d.size() < 12 || !s.ParseFromString(d.substr(12))) return std::nullopt;
  return s;
}

std::vector<Kind::EventKind> Kinds(const OperationalStats& o) {
  std::vector<Kind::EventKind> v;
  for (auto& e : o.events()) v.push_back(e.event_type());
  for (auto& p : o.phase_stats()) {
    for (auto& e : p.events()) v.push_back(e.event_type());
  }
  return v;
}

void Remove(const std::string& path) {
  struct stat st;
  if (lstat(path.c_str(), &st) != 0) return;
  if (S_ISDIR(st.st_mode)) {
    if (DIR* d = opendir(path.c_str())) {
      while (auto* e = readdir(d)) {
        std::string n = e->d_name;
        if (n != "." && n != "..") Remove(path + "/" + n);
      }
      closedir(d);
    }
    rmdir(path.c_str());
  } else {
    unlink(path.c_str());
  }
}

struct Past {
  std::set<std::string> contributed, tried;
  bool clouded = false;  // the history may have been lost
};

struct Client : cl::SimpleTaskEnvironment, cl::Files {
  Src& s;
  Case& c;
  std::string dir;
  Past& past;
  Flags flags;
  FcServer server;
  fakes::Http http;
  fakes::Log log;
  fakes::Events events;
  std::vector<Job> jobs;
  std::atomic<bool> abort{false};
  std::string problem;
  std::string session, url;
  int quiet = 0;
  // The eligibility step.
  enum { kNone, kSpecOnly, kPolicies, kLegacy, kRejected, kNothing } eet = kNone;
  PopulationEligibilitySpec spec;
  std::vector<Policy> policies;
  Offer spec_offer, eet_plan, eet_checkpoint;
  bool eet_bad_plan = false;
  std::string eet_init;
  bool no_init_files = false, abort_at_start = false, opstats_down = false;
  int abort_after = -1;  // tasks completed
  int storage = 0;
  int files = 0, completed = 0, resources = 0;
  std::set<std::string> blobs;

  Client(Src& s, Case& c, std::string dir, Past& past) : s(s), c(c), dir(dir), past(past) {}

  void Bad(const std::string& what) {
    if (problem.empty()) problem = what;
  }

  // SimpleTaskEnvironment and Files.
  std::string GetBaseDir() override { return dir; }
  std::string GetCacheDir() override { return dir; }
  std::unique_ptr<fh::HttpClient> CreateHttpClient() override {
    auto f = std::make_unique<Forwarder>();
    f->http = &http;
    return f;
  }
  std::unique_ptr<cl::attestation::AttestationVerifier> CreateAttestationVerifier() override {
    return std::make_unique<cl::attestation::AlwaysPassingAttestationVerifier>();
  }
  bool TrainingConditionsSatisfied() override { return !abort; }
  Job* Current() {
    for (auto& j : jobs) {
      if (j.name == log.model) return &j;
    }
    return nullptr;
  }
  absl::StatusOr<std::string> CreateTempFile(const std::string& prefix, const std::string&) override {
    if (prefix == "init" && no_init_files) return absl::InternalError("no file");
    Job* j = Current();
    if (prefix == "output" && j && j->trouble == kNoOutputFile) return absl::InvalidArgumentError("no file");
    std::string path = absl::StrCat(dir, "/tmp/", prefix, files++);
    return path;
  }
  bool OnTaskCompleted(const cl::TaskResultInfo& info) override {
    Job* j = Current();
    if (!j) {
      Bad("a task was completed that is none: " + log.model);
      return true;
    }
    j->completed++;
    j->said = info.result();
    j->queries = info.example_iterator_queries();
    if (info.has_example_iterator_queries() && !flags.record) Bad("queries recorded although switched off");
    if (completed++ == abort_after) abort = true;
    return true;
  }
  absl::StatusOr<std::unique_ptr<cl::ExampleIterator>> CreateExampleIterator(const ExampleSelector&) override {
    Bad("a query without its context");
    return absl::InternalError("no");
  }
  absl::StatusOr<std::unique_ptr<cl::ExampleIterator>> CreateExampleIterator(const ExampleSelector& e, const cl::SelectorContext& ctx) override {
    auto& p = ctx.computation_properties();
    if (p.session_name() != session) Bad("session name in the context");
    std::string uri = e.collection_uri();
    auto it = std::make_unique<fakes::Playback>();
    if (absl::StartsWith(uri, "app:/elig")) {
      if (!p.has_eligibility_eval() || p.eligibility_eval().population_name() != server.population) Bad("context of an eligibility query");
      Policy& y = policies[std::stoi(uri.substr(9))];
      if (y.broken) return absl::InternalError("closed");
      for (int i = 0; i < y.have; ++i) it->examples.push_back("x");
      return it;
    }
    for (auto& j : jobs) {
      for (size_t q = 0; q < j.selectors.size(); ++q) {
        if (j.selectors[q].collection_uri() != uri) continue;
        if (j.selectors[q].SerializeAsString() != e.SerializeAsString()) Bad("another query than in the plan");
        j.opened++;
        CheckContext(j, p);
        if (j.trouble == kNoIterator) return absl::InvalidArgumentError("closed");
        if (j.query) {
          it->examples = {j.examples[q]};
        } else {
          it->examples = j.examples;
        }
        if (j.trouble == kIteratorFails) {
          it->fail_at = j.query ? 0 : int(j.examples.size() / 2);
          it->error = absl::InvalidArgumentError("broken");
        }
        if (j.query && j.trouble == kInterrupted) {
          it->fail_at = 0;
          it->error = absl::CancelledError("stopped");
          it->on_next = [this] { abort = true; };
        }
        if (j.query && j.trouble == kLateAbort) it->on_next = [this] { abort = true; };
        return it;
      }
    }
    Bad("a query for " + uri);
    return absl::InternalError("no");
  }
  void CheckContext(const Job& j, const cl::QueryTimeComputationProperties& p) {
    auto& f = p.federated();
    if (!p.has_federated() || f.population_name() != server.population) Bad("population in the context");
    if (f.task_name() != j.name) Bad("task name in the context: " + f.task_name() + " for " + j.name);
    if ((p.example_iterator_output_format() == cl::QueryTimeComputationProperties::EXAMPLE_QUERY_RESULT) != j.query) Bad("format in the context");
    std::string id;
    if (flags.light_id) {
      std::string all;
      for (auto& x : j.criteria) all += x;
      if (j.query) id = fcp::ComputeSHA256(all);
    } else if (flags.id) {
      id = fcp::ComputeSHA256(j.plan_bytes);
    }
    if (f.computation_id() != id) Bad("computation id in the context");
    bool conf = j.type == fakes::kConfidential && flags.conf_context;
    if (f.has_confidential_aggregation() != conf) Bad("confidential aggregation in the context");
    if (f.has_secure_aggregation() != (!conf && !j.query && !j.has_file)) Bad("secure aggregation in the context");
    if (f.has_secure_aggregation() && j.type == fakes::kSecAgg &&
        f.secure_aggregation().minimum_clients_in_server_visible_aggregate() != server.tasks[j.i].min_clients) {
      Bad("number of clients in the context");
    }
    if (opstats_down || past.clouded) return;
    bool before = f.historical_context().has_last_successful_contribution_time();
    if (past.contributed.count(j.name) && !before) Bad("the last contribution is missing from the context");
    if (!past.tried.count(j.name) && before) Bad("a contribution in the context that was not made");
  }

  Offer MakeOffer(const std::string& data) {
    Offer o;
    o.data = data;
    o.kind = s.of<Offer::Kind>({Offer::kInline, Offer::kInlineGzip, Offer::kUri});
    if (o.data.empty() && o.kind == Offer::kInlineGzip) o.kind = Offer::kInline;
    if (o.kind == Offer::kUri) {
      o.uri = "https://res.example/" + std::to_string(resources++) + "/x";
      if (quiet && s.chance(1, quiet)) o.fault = fakes::DrawFault(s, true, false);
    }
    return o;
  }

  void DrawJob(int i) {
    Job j;
    j.i = i;
    j.name = "task" + std::to_string(i);
    j.multi = i > 0;
    std::string n = std::to_string(i);
    j.query = s.flip();
    j.type = j.query ? s.of<AggType>({fakes::kSimple, fakes::kConfidential})
                     : s.of<AggType>({fakes::kSimple, fakes::kConfidential, fakes::kSecAgg});
    if (quiet && s.chance(1, 4)) {
      j.trouble = Trouble(s.urange(1, 10));
      if (j.query && (j.trouble == kModelFails || j.trouble == kOddOutput)) j.trouble = kIteratorFails;
    }
    ServerTask t;
    t.index = i;
    t.name = j.name;
    t.aggregation = "agg" + n;
    t.session = "task session " + n;
    t.authorization = "auth" + n;
    t.token = "token" + n;
    t.give_token = s.flip();
    t.type = j.type;
    t.min_clients = 1 + s.draw(100);
    t.agg = fakes::DrawForward(s, "agg" + n);
    t.aggp = fakes::DrawForward(s, "aggp" + n);
    t.up = fakes::DrawForward(s, "up" + n);
    t.resource = "res" + n;
    t.polls = s.small(0, 2);
    if (quiet && s.chance(1, 20)) t.op_error = s.range(1, 16);
    ClientOnlyPlan plan;
    if (j.query) {
      DrawQuery(j, &plan);
    } else {
      DrawModel(j, &plan);
    }
    if (s.chance(1, 4)) plan.mutable_client_persisted_data()->set_min_sep_policy_index(s.draw(100));
    j.plan_bytes = j.trouble == kBadPlan ? std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7) : plan.SerializeAsString();
    t.plan = MakeOffer(j.plan_bytes);
    if (!j.query || s.flip()) t.checkpoint = MakeOffer(j.init);
    if (j.type == fakes::kConfidential) {
      t.policy = MakeOffer("policy" + s.bytes(10));
      fc::ConfidentialEncryptionConfig config;
      j.decryptor = std::make_unique<fcp::confidential_compute::MessageDecryptor>();
      config.set_public_key(*j.decryptor->GetPublicKey([](absl::string_view) -> absl::StatusOr<std::string> { return std::string(64, 's'); }, -7));
      j.config = config.SerializeAsString();
      t.encryption = MakeOffer(j.config);
    }
    if (j.type == fakes::kSecAgg) {
      std::vector<sim::InputVectorSpecification> specs;
      for (auto& [name, v] : j.secure) {
        uint64_t top = 1;
        for (auto x : v) top = std::max(top, x);
        uint64_t modulus = top + 1 + s.draw(1000);
        specs.emplace_back(name, v.size(), modulus);
        (*t.secagg.mutable_secure_aggregands())[name].set_modulus(modulus);
      }
      j.world = std::make_unique<sim::World>(s, specs);
      t.secagg.mutable_protocol_execution_info()->set_expected_number_of_clients(j.world->neighbours());
      t.secagg.mutable_protocol_execution_info()->set_minimum_surviving_clients_for_reconstruction(j.world->threshold());
    }
    c.log << "  " << j.name << (j.query ? " query" : " model") << " type " << int(j.type) << (j.has_file ? " file" : "");
    for (auto& x : j.secure) c.log << " " << x.first << "[" << x.second.size() << "]";
    if (j.trouble) c.log << " " << kTroubles[j.trouble];
    if (t.op_error) c.log << " start ends with " << t.op_error;
    for (Offer* o : {&t.plan, &t.checkpoint, &t.policy, &t.encryption}) {
      if (o->fault) c.log << " offer fault " << int(o->fault.kind) << "/" << o->fault.http;
    }
    c.log << "\n";
    server.tasks.push_back(std::move(t));
    jobs.push_back(std::move(j));
  }

  void DrawQuery(Job& j, ClientOnlyPlan* plan) {
    auto* eq = plan->mutable_phase()->mutable_example_query_spec();
    auto* router = plan->mutable_phase()->mutable_federated_example_query();
    int nq = s.weighted({0, 3, 1});
    using Spec = ExampleQuerySpec::OutputVectorSpec;
    for (int q = 0; q < nq; ++q) {
      auto* e = eq->add_example_queries();
      ExampleSelector sel;
      sel.set_collection_uri(absl::StrCat("app:/t", j.i, "/", q));
      if (s.flip()) {
        sel.mutable_criteria()->set_type_url("type/" + s.ident(2));
        sel.mutable_criteria()->set_value(s.bytes(4));
      }
      *e->mutable_example_selector() = sel;
      j.criteria.push_back(sel.criteria().SerializeAsString());
      j.selectors.push_back(sel);
      ExampleQueryResult r;
      int no = s.weighted({0, 2, 1});
      for (int o = 0; o < no; ++o) {
        std::string out = absl::StrCat("out", q, "_", o), vec = absl::StrCat("v", o);
        auto& os = (*e->mutable_output_vector_specs())[out];
        auto& values = (*r.mutable_vector_data()->mutable_vectors())[vec];
        os.set_vector_name(vec);
        TensorOut t;
        int n = s.draw(4);
        if (s.flip()) {
          os.set_data_type(Spec::INT64);
          t.type = 'l';
          values.mutable_int64_values();
          for (int k = 0; k < n; ++k) {
            int64_t x = s.edgy_signed();
            values.mutable_int64_values()->add_value(x);
            t.elements.push_back(std::string(reinterpret_cast<char*>(&x), 8));
          }
        } else {
          os.set_data_type(Spec::STRING);
          t.type = 's';
          values.mutable_string_values();
          for (int k = 0; k < n; ++k) {
            std::string x = s.str(6, "abc");
            values.mutable_string_values()->add_value(x);
            t.elements.push_back(x);
          }
        }
        j.tensors[out] = t;
        if (j.trouble != kNoAggregation || o > 0 || q > 0) (*router->mutable_aggregations())[out].mutable_tf_v1_checkpoint_aggregation();
      }
      j.examples.push_back(r.SerializeAsString());
    }
    if (j.trouble == kNoRouter) plan->mutable_phase()->clear_federated_example_query();
  }

  void DrawModel(Job& j, ClientOnlyPlan* plan) {
    plan->set_tflite_graph("model" + std::to_string(j.i));
    auto* spec = plan->mutable_phase()->mutable_tensorflow_spec();
    auto* router = plan->mutable_phase()->mutable_federated_compute();
    spec->set_dataset_token_tensor_name("token");
    j.init = "init" + s.bytes(s.chance(1, 10) ? 20000 : 30);
    router->set_input_filepath_tensor_name("in");
    spec->add_input_tensor_specs()->set_name("in");
    ExampleSelector sel;
    sel.set_collection_uri(absl::StrCat("app:/t", j.i, "/data"));
    if (s.flip()) sel.mutable_criteria()->set_value(s.bytes(4));
    j.selectors.push_back(sel);
    int n = s.draw(5);
    for (int k = 0; k < n; ++k) j.examples.push_back(absl::StrCat(k, ":", s.bytes(5)));
    j.has_file = j.type != fakes::kSecAgg || s.flip();
    if (j.has_file) {
      router->set_output_filepath_tensor_name("out");
      spec->add_input_tensor_specs()->set_name("out");
    } else if (j.trouble == kNoOutputFile) {
      j.trouble = kModelFails;
    }
    std::string all = "OUT|" + plan->tflite_graph() + "|" + j.init;
    for (auto& x : j.examples) all += "|" + x;
    if (j.has_file) j.file = all;
    if (j.type == fakes::kSecAgg) {
      int m = s.weighted({0, 3, 1});
      for (int o = 0; o < m; ++o) {
        std::string name = absl::StrCat("t", o);
        auto type = s.of<tensorflow::DataType>({tensorflow::DT_INT8, tensorflow::DT_UINT8, tensorflow::DT_INT16, tensorflow::DT_UINT16, tensorflow::DT_INT32, tensorflow::DT_INT64});
        uint64_t top = type == tensorflow::DT_INT8 ? 127 : type == tensorflow::DT_UINT8 ? 255 : type == tensorflow::DT_INT16 ? 32767
                     : type == tensorflow::DT_UINT16 ? 65535 : type == tensorflow::DT_INT32 ? 2147483647 : (uint64_t(1) << 55);
        auto* os = spec->add_output_tensor_specs();
        os->set_name(name);
        int a = s.urange(1, 4), b = s.urange(1, 2);
        os->mutable_shape()->add_dim()->set_size(a);
        os->mutable_shape()->add_dim()->set_size(b);
        j.dims[name] = {a, b};
        j.types[name] = type;
        for (int k = 0; k < a * b; ++k) j.secure[name].push_back(s.chance(1, 4) ? top : s.urange(0, top));
        if (j.trouble != kNoAggregation || o > 0) (*router->mutable_aggregations())[name].mutable_secure_aggregation();
      }
    } else if (j.trouble == kNoAggregation || j.trouble == kOddOutput) {
      j.trouble = kModelFails;
    }
    if (j.trouble == kNoRouter) {
      plan->mutable_phase()->clear_federated_compute();
      // Neither a file nor tensors: counts as secure aggregation for sources,
      // which are never opened.
    }
  }

  // The stand-in for the models.
  absl::StatusOr<fe::OutputTensors> Model(const std::string& model, const Inputs& in, const std::vector<std::string>& out) {
    auto read = [&](const ExampleSelector& sel) -> absl::StatusOr<std::vector<std::string>> {
      auto token = in.find("token");
      if (token == in.end()) return absl::InvalidArgumentError("no token");
      auto provider = fcp::ExternalDatasetProviderRegistry::TryLookup(fcp::RandomToken::FromBytes(token->second));
      if (!provider.has_value()) return absl::InvalidArgumentError("no provider");
      auto dataset = (*provider)->MakeDataset(sel.SerializeAsString());
      if (!dataset.ok()) return dataset.status();
      auto it = (*dataset)->MakeIterator();
      std::vector<std::string> v;
      while (true) {
        auto x = it->GetNext();
        if (absl::IsOutOfRange(x.status())) return v;
        if (!x.ok()) return x.status();
        v.push_back(std::string(*x));
      }
    };
    if (model == "eet") {
      TaskEligibilityInfo info;
      info.set_version(1);
      // The policy asking is known from the example it provides.
      ExampleSelector sel;
      sel.set_collection_uri("internal:/eligibility_context");
      auto context = read(sel);
      if (!context.ok() || context->size() != 1) {
        Bad("the eligibility context: " + context.status().ToString());
        return absl::InvalidArgumentError("no");
      }
      Policy* y = nullptr;
      for (size_t k = 0; k < policies.size(); ++k) {
        if (policies[k].kind == 1 && (*context)[0].find("policy" + std::to_string(k) + "!") != std::string::npos) y = &policies[k];
      }
      if (!y) {
        Bad("the eligibility context names no policy");
        return absl::InvalidArgumentError("no");
      }
      if (in.count("in") != 1 || ReadFile(in.at("in")) != eet_init) {
        if (!fsfault::Fired()) Bad("the checkpoint of the eligibility computation");
      }
      if (y->broken) return absl::InvalidArgumentError("failed");
      for (auto& n : y->chosen) {
        auto* w = info.add_task_weights();
        w->set_task_name(n);
        w->set_weight(1);
      }
      return fe::OutputTensors{out, {tensorflow::Tensor(info.SerializeAsString())}};
    }
    Job* j = nullptr;
    for (auto& k : jobs) {
      if (model == "model" + std::to_string(k.i)) j = &k;
    }
    if (!j || j->query) {
      Bad("another model");
      return absl::InvalidArgumentError("no");
    }
    j->modelled++;
    if (in.count("in") != 1 || in.count("out") != size_t(j->has_file)) {
      Bad("inputs of the model");
      return absl::InvalidArgumentError("no");
    }
    auto data = read(j->selectors[0]);
    if (!data.ok()) return absl::InvalidArgumentError("no data");
    std::string all = "OUT|" + model + "|" + ReadFile(in.at("in"));
    for (auto& x : *data) all += "|" + x;
    if (j->trouble == kModelFails) return absl::InvalidArgumentError("failed");
    if (j->trouble == kInterrupted) {
      abort = true;
      return absl::CancelledError("stopped");
    }
    if (j->trouble == kLateAbort) abort = true;
    if (j->has_file) {
      std::ofstream f(in.at("out"), std::ios::binary);
      f << all;
      f.close();
      if (!f) return absl::InvalidArgumentError("cannot write");
    }
    fe::OutputTensors r;
    for (auto& name : out) {
      auto type = j->types[name];
      auto& v = j->secure[name];
      auto shape = tensorflow::TensorShape({int64_t(v.size())});
      if (j->trouble == kOddOutput) type = tensorflow::DT_FLOAT;
      tensorflow::Tensor t(type, shape);
      for (size_t k = 0; k < v.size(); ++k) {
        switch (type) {
          case tensorflow::DT_INT8: t.flat<int8_t>()(k) = v[k]; break;
          case tensorflow::DT_UINT8: t.flat<uint8_t>()(k) = v[k]; break;
          case tensorflow::DT_INT16: t.flat<int16_t>()(k) = v[k]; break;
          case tensorflow::DT_UINT16: t.flat<uint16_t>()(k) = v[k]; break;
          case tensorflow::DT_INT32: t.flat<int32_t>()(k) = v[k]; break;
          case tensorflow::DT_FLOAT: t.flat<float>()(k) = v[k]; break;
          default: t.flat<int64_t>()(k) = v[k];
        }
      }
      r.output_tensor_names.push_back(name);
      r.output_tensors.push_back(t);
    }
    return r;
  }

  std::map<std::string, bool> eligible;  // by policies
  std::vector<std::string> want_names;   // for the multiple assignment
  bool want_single = false, has_info = false;

  void DrawEligibility() {
    auto& e = server.eet;
    e.set_session_id(server.session);
    auto range = [&](fc::RetryWindow* w, int64_t lo, int64_t len) {
      w->mutable_delay_min()->set_seconds(lo);
      w->mutable_delay_max()->set_seconds(lo + len);
    };
    range(e.mutable_retry_window_if_accepted(), 100000 + s.draw(1000), s.draw(40000));
    range(e.mutable_retry_window_if_rejected(), 50000 + s.draw(1000), s.draw(20000));
    server.ta.Fill(e.mutable_task_assignment_forwarding_info());
    eet = decltype(eet)(s.weighted({3, 4, 5, 1, quiet ? 1u : 0u, quiet ? 1u : 0u}));
    // Which tasks exist as far as the specification goes.
    if (eet == kSpecOnly || eet == kPolicies) {
      std::vector<int> order;
      for (auto& j : jobs) {
        if (j.multi || s.chance(3, 4)) order.push_back(j.i);
      }
      s.shuffle(&order);
      for (int i : order) {
        auto* t = spec.add_task_info();
        t->set_task_name(jobs[i].name);
        t->set_task_assignment_mode(jobs[i].multi ? TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE
                                    : s.flip()    ? TaskInfo::TASK_ASSIGNMENT_MODE_SINGLE
                                                  : TaskInfo::TASK_ASSIGNMENT_MODE_UNSPECIFIED);
        if (!jobs[i].multi) want_single = true;
      }
      if (s.chance(1, 4)) {
        auto* t = spec.add_task_info();
        t->set_task_name("elsewhere");
        t->set_task_assignment_mode(s.flip() ? TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE : TaskInfo::TASK_ASSIGNMENT_MODE_SINGLE);
        if (t->task_assignment_mode() == TaskInfo::TASK_ASSIGNMENT_MODE_SINGLE) want_single = true;
      }
    } else {
      want_single = true;
    }
    bool model = false;
    if (eet == kPolicies) {
      int n = s.urange(1, 3);
      for (int k = 0; k < n; ++k) {
        Policy y;
        y.kind = s.weighted({3, 2, 1});
        y.have = s.draw(4);
        y.need = s.draw(4);
        y.broken = s.chance(1, 10);
        auto* p = spec.add_eligibility_policies();
        p->set_name("policy" + std::to_string(k) + "!");
        p->set_min_version(1);
        if (y.kind == 0) {
          p->mutable_data_availability_policy()->mutable_selector()->set_collection_uri("app:/elig" + std::to_string(k));
          p->mutable_data_availability_policy()->set_min_example_count(y.need);
        } else if (y.kind == 1) {
          p->mutable_tf_custom_policy()->set_arguments("");
          model = true;
          for (auto& t : spec.task_info()) {
            if (s.chance(2, 3)) y.chosen.insert(t.task_name());
          }
        }
        policies.push_back(y);
      }
      for (auto& t : *spec.mutable_task_info()) {
        bool ok = true;
        for (int k = 0; k < n; ++k) {
          if (!s.chance(1, 3)) continue;
          t.add_eligibility_policy_indices(k);
          Policy& y = policies[k];
          ok &= y.kind == 0 ? !y.broken && y.have >= y.need : y.kind == 1 ? !y.broken && y.chosen.count(t.task_name()) > 0 : false;
        }
        eligible[t.task_name()] = ok;
      }
      has_info = spec.task_info_size() > 0;
      if (!has_info) want_single = false;
    }
    for (auto& t : spec.task_info()) {
      if (t.task_assignment_mode() != TaskInfo::TASK_ASSIGNMENT_MODE_MULTIPLE) continue;
      if (eet == kSpecOnly || eligible[t.task_name()]) want_names.push_back(t.task_name());
    }
    switch (eet) {
      case kNone: e.mutable_no_eligibility_eval_configured(); break;
      case kSpecOnly:
      case kPolicies:
      case kLegacy: {
        auto* t = e.mutable_eligibility_eval_task();
        t->set_execution_id("exec");
        if (eet != kLegacy) {
          spec_offer = MakeOffer(spec.SerializeAsString());
          spec_offer.Fill(t->mutable_population_eligibility_spec());
        }
        if (eet != kSpecOnly) {
          ClientOnlyPlan plan;
          plan.set_tflite_graph("eet");
          plan.mutable_phase()->mutable_tensorflow_spec()->set_dataset_token_tensor_name("token");
          plan.mutable_phase()->mutable_tensorflow_spec()->add_input_tensor_specs()->set_name("in");
          plan.mutable_phase()->mutable_tensorflow_spec()->add_output_tensor_specs()->set_name("info");
          plan.mutable_phase()->mutable_federated_compute_eligibility()->set_input_filepath_tensor_name("in");
          plan.mutable_phase()->mutable_federated_compute_eligibility()->set_task_eligibility_info_tensor_name("info");
          eet_bad_plan = quiet && s.chance(1, 12);
          if (model || eet == kLegacy || s.flip() || eet_bad_plan) {
            eet_init = "eet init" + s.bytes(8);
            eet_plan = MakeOffer(eet_bad_plan ? std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7) : plan.SerializeAsString());
            eet_checkpoint = MakeOffer(eet_init);
            eet_plan.Fill(t->mutable_plan());
            eet_checkpoint.Fill(t->mutable_init_checkpoint());
          }
        }
        break;
      }
      case kRejected: e.mutable_rejection_info(); break;
      default: break;
    }
    // What the server assigns.
    for (auto& n : want_names) {
      for (auto& j : jobs) {
        if (j.name == n && s.chance(5, 6)) server.several.push_back(j.i);
      }
    }
    server.single = 0;
    server.ta_polls = s.small(0, 2);
    if (quiet && s.chance(1, 14)) server.ta_error = s.range(1, 16);
    if (quiet && s.chance(1, 14)) server.ta_reject = true;
    if (quiet && s.chance(1, 25)) server.ta_empty = true;
    if (quiet && s.chance(1, 25)) server.ta_wrong_type = true;
    c.log << "  eligibility " << int(eet) << (eet_bad_plan ? " bad plan" : "");
    for (auto& t : spec.task_info()) {
      c.log << " " << t.task_name() << "/" << int(t.task_assignment_mode());
      if (eet == kPolicies) c.log << (eligible[t.task_name()] ? "+" : "-");
    }
    c.log << " gives";
    for (int i : server.several) c.log << " " << i;
    if (server.ta_error) c.log << ", single fails " << server.ta_error;
    if (server.ta_reject) c.log << ", single rejected";
    if (server.ta_empty) c.log << ", single empty";
    if (server.ta_wrong_type) c.log << ", single odd";
    c.log << "\n";
  }

  // The requests of secure aggregation the common server does not know.
  std::optional<Reply> Secure(const Seen& q, int task, const std::string& rest, const std::string& body) {
    Job& j = jobs[task];
    ServerTask& t = server.tasks[task];
    if (j.type != fakes::kSecAgg) return std::nullopt;
    Reply r;
    auto faulty = [&](const std::string& kind) {
      fakes::ServerEvent e;
      e.kind = kind + " " + std::to_string(task);
      e.batch = q.batch;
      e.fault = DrawServerFault(e.kind);
      server.events.push_back(e);
      if (!e.fault) return false;
      if (kind == "unmask") {
        j.unmask_fault = true;
      } else {
        j.sa_fault = true;
      }
      switch (e.fault.kind) {
        case Fault::kHttp:
          r.code = e.fault.http;
          r.body = "no";
          break;
        case Fault::kLost:
          r.fail = Reply::kBeforeHeaders;
          r.error = absl::Status(e.fault.lost, "lost");
          break;
        case Fault::kInterrupt: r.fail = Reply::kHang; break;
        default: r.body = std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7);
      }
      return true;
    };
    if (rest == "/upload/v1/media/" + t.resource + "-plain") {
      CheckRecorded(j, true, "the plain part");
      j.has_plain = true;
      j.plain = body;
      faulty("plain");
      return r;
    }
    std::string pre = "/v1/secureaggregations/" + t.aggregation + "/clients/" + t.Token() + ":";
    if (rest.compare(0, pre.size(), pre) != 0) return std::nullopt;
    std::string verb = rest.substr(pre.size());
    fcp::secagg::ClientToServerWrapperMessage m;
    auto done = [&](const google::protobuf::Message& x) {
      fakes::Operation op;
      op.set_name("operations/" + verb);
      op.set_done(true);
      op.mutable_response()->PackFrom(x);
      r.body = op.SerializeAsString();
    };
    if (verb == "advertisekeys") {
      if (faulty(verb)) return r;
      fc::AdvertiseKeysRequest req;
      if (!req.ParseFromString(body)) Bad("keys");
      *m.mutable_advertise_keys() = req.advertise_keys();
      auto a = j.world->Next(m);
      fc::AdvertiseKeysResponse x;
      if (a) *x.mutable_share_keys_server_request() = a->share_keys_request();
      done(x);
    } else if (verb == "sharekeys") {
      if (faulty(verb)) return r;
      fc::ShareKeysRequest req;
      if (!req.ParseFromString(body)) Bad("shares");
      *m.mutable_share_keys_response() = req.share_keys_client_response();
      auto a = j.world->Next(m);
      fc::ShareKeysResponse x;
      if (a) *x.mutable_masked_input_collection_server_request() = a->masked_input_request();
      done(x);
    } else if (verb == "submit") {
      t.submits++;
      if (faulty(verb)) return r;
      fc::SubmitSecureAggregationResultRequest req;
      if (!req.ParseFromString(body)) Bad("submit");
      if (req.masked_result_resource_name() != t.resource) Bad("name of the masked result");
      if (req.nonmasked_result_resource_name() != (j.has_file ? t.resource + "-plain" : "")) Bad("name of the plain result");
      if (t.uploads.size() != 1 || !m.mutable_masked_input_response()->ParseFromString(t.uploads[0])) Bad("masked result");
      auto a = j.world->Next(m);
      fc::SubmitSecureAggregationResultResponse x;
      if (a) *x.mutable_unmasking_server_request() = a->unmasking_request();
      done(x);
    } else if (verb == "unmask") {
      fc::UnmaskRequest req;
      if (!req.ParseFromString(body)) Bad("unmask");
      if (faulty(verb)) return r;
      *m.mutable_unmasking_response() = req.unmasking_client_response();
      j.world->Next(m);
      j.unmasked = true;
    } else if (verb == "abort") {
      j.secagg_aborts++;
    } else {
      return std::nullopt;
    }
    if (!j.world->problem.empty()) Bad(j.world->problem);
    return r;
  }

  Fault DrawServerFault(const std::string& kind) {
    Fault f;
    if (!quiet || !s.chance(1, quiet)) return f;
    bool best_effort = kind.compare(0, 6, "cancel") == 0 || kind.compare(0, 5, "abort") == 0;
    bool parsed = kind == "eet" || kind == "ta_start" || kind == "ta_multi" || kind.compare(0, 4, "poll") == 0 ||
                  kind.compare(0, 5, "start") == 0 || kind.compare(0, 8, "sa_start") == 0 || kind.compare(0, 9, "advertise") == 0 ||
                  kind.compare(0, 9, "sharekeys") == 0;
    return fakes::DrawFault(s, !best_effort, parsed);
  }

  // The history on disk already says that this report has begun.
  void CheckRecorded(const Job& j, bool result, const std::string& what) {
    if (opstats_down) return;
    auto h = History(dir);
    if (!h || h->opstats_size() == 0) return Bad(what + " is sent while the history is unreadable");
    auto& last = h->opstats(h->opstats_size() - 1);
    if (last.session_name() != session) return Bad(what + " is sent before the run is in the history");
    int n = 0, want = 1;
    for (auto k : Kinds(last)) n += k == (result ? Kind::EVENT_KIND_RESULT_UPLOAD_STARTED : Kind::EVENT_KIND_FAILURE_UPLOAD_STARTED);
    for (auto& k : jobs) {
      if (k.completed && k.i != j.i && Begun(k, result)) want++;
    }
    if (n < want) Bad(absl::StrCat(what, " of ", j.name, " is sent before its start is in the history"));
  }
  // Whether a report of this kind left for the job.
  bool Begun(const Job& j, bool result) {
    for (auto& r : server.tasks[j.i].reports) {
      if ((r.computation_status_code() == 0) == result) return true;
    }
    return false;
  }

  void Draw() {
    quiet = s.chance(1, 3) ? 0 : s.of<int>({12, 25, 60});
    flags.conf = true;
    flags.wire = s.flip();
    flags.untie = s.chance(2, 3);
    flags.plain = s.chance(1, 3);
    for (int code = 1; code <= 16; ++code) {
      if (s.chance(1, 3)) flags.codes.push_back(code);
    }
    flags.phases = s.flip();
    flags.record = s.flip();
    flags.id = s.flip();
    flags.light_id = s.chance(1, 3);
    flags.conf_context = s.flip();
    flags.cache = s.chance(1, 3) ? 100000 : 0;
    server.api_key = "key";
    server.population = "pop/" + s.str(2, "ab /%");
    server.session = "session " + s.str(2, "xy/");
    server.compress = !flags.plain;
    url = s.chance(1, 10) ? "http://localhost:1234" : "https://entry.example";
    server.entry.base = url;
    server.ta = fakes::DrawForward(s, "assign");
    session = "s" + std::to_string(c.index) + s.ident(4);
    c.log << " flags wire " << flags.wire << " untie " << flags.untie << " phases " << flags.phases << " quiet " << quiet << "\n";
    int n = 1 + s.small(0, 3);
    for (int i = 0; i < n; ++i) DrawJob(i);
    DrawEligibility();
    for (auto& t : server.tasks) {
      for (Offer* o : {&t.plan, &t.checkpoint, &t.policy, &t.encryption}) {
        if (o->kind == Offer::kUri) server.offers[o->uri] = o;
      }
    }
    for (Offer* o : {&spec_offer, &eet_plan, &eet_checkpoint}) {
      if (o->kind == Offer::kUri) server.offers[o->uri] = o;
    }
    if (quiet) {
      no_init_files = s.chance(1, 15);
      abort_at_start = s.chance(1, 30);
      if (s.chance(1, 12)) abort_after = s.draw(2);
      if (s.chance(1, 6)) storage = 1 + s.draw(s.flip() ? 6 : 25);
    }
    if (no_init_files) c.log << "  no init files\n";
    if (abort_at_start) c.log << "  abort at start\n";
    if (abort_after >= 0) c.log << "  abort after completed task " << abort_after << "\n";
  }

  absl::StatusOr<cl::FLRunnerResult> Run() {
    mkdir((dir + "/tmp").c_str(), 0777);
    server.fault = [this](const std::string& kind) { return DrawServerFault(kind); };
    server.before = [this](const std::string& kind) {
      auto at = kind.rfind(' ');
      std::string verb = kind.substr(0, at);
      if (verb == "start" || verb == "sa_start" || verb == "upload" || verb == "report") {
        Job& j = jobs[std::stoi(kind.substr(at + 1))];
        bool result = true;
        if (verb == "report") result = server.tasks[j.i].reports.back().computation_status_code() == 0;
        CheckRecorded(j, result, verb);
      }
    };
    server.more = [this](const Seen& q, int task, const std::string& rest, const std::string& body) { return Secure(q, task, rest, body); };
    http.handler = [this](const Seen& q) { return server.Handle(q); };
    http.on_hang = [this] { abort = true; };
    http.pick = [this](size_t n) { return s.draw(n); };
    http.read_size = [] { return 4096; };
    g_model = [this](const std::string& m, const Inputs& in, const std::vector<std::string>& out) { return Model(m, in, out); };
    events.hook = [this](const fakes::Event& e) {
      if (e.name == "PublishNonfatalInitializationError") opstats_down = true;
    };
    if (abort_at_start) abort = true;
    if (storage) {
      auto mode = s.flip() ? fsfault::kFail : fsfault::kPartial;
      c.log << "  file operation " << storage << (mode == fsfault::kFail ? " fails\n" : " fails halfway\n");
      fsfault::Arm(mode, storage - 1);
    } else {
      fsfault::Arm(fsfault::kOff, 0);
    }
    auto r = cl::RunFederatedComputation(this, &events, this, &log, &flags, url, "key", "", session, server.population, "retry", "v1", "measurement");
    fsfault::Disarm();
    g_model = nullptr;
    return r;
  }

  void Check(const absl::StatusOr<cl::FLRunnerResult>& got) {
    bool io = past.clouded || (storage && fsfault::Fired());
    c.log << "  ->";
    for (auto& e : server.events) c.log << " [" << e.kind << (e.fault ? absl::StrCat(" !", int(e.fault.kind), "/", e.fault.http) : "") << "]";
    c.log << (io ? " storage fault" : "") << (abort ? " interrupted" : "") << "\n  =>";
    for (auto& e : events.all) {
      if (e.name != "SetModelIdentifier") c.log << " " << e.name.substr(7);
    }
    c.log << "\n";
    PBT_CHECK(problem.empty(), problem);
    PBT_CHECK(server.problem.empty(), server.problem);
    PBT_CHECK(http.misuse.empty(), http.misuse);
    PBT_CHECK(got.ok(), "the run returned " << got.status());
    const cl::FLRunnerResult& r = *got;
    c.log << "  result " << r.ShortDebugString() << "\n";

    std::map<std::string, int> first, last, count;
    bool faults = false, op_errors = false;
    for (size_t k = 0; k < server.events.size(); ++k) {
      auto& e = server.events[k];
      if (!first.count(e.kind)) first[e.kind] = k;
      last[e.kind] = k;
      count[e.kind]++;
      if (e.fault) faults = true;
    }
    auto fault_in = [&](const std::string& kind) {
      for (auto& e : server.events) {
        if (e.kind == kind && e.fault) return true;
      }
      return false;
    };
    std::map<std::string, int> published;
    for (auto& e : events.all) published[e.name]++;

    // Phases of contact.
    PBT_CHECK(count["eet"] == (abort_at_start ? 0 : 1), "eligibility requests");
    if (!server.events.empty()) PBT_CHECK(server.events[0].kind == "eet", "the first request is " << server.events[0].kind);
    if (abort_at_start) {
      PBT_CHECK(server.events.empty(), "requests although the run must not start");
      PBT_EQ(published["PublishTaskNotStarted"], 1, "event");
    }
    PBT_CHECK(count["ta_multi"] <= 1 && count["ta_start"] <= 1, "several assignment requests");
    bool through = !abort_at_start && !fault_in("eet") && eet != kRejected && eet != kNothing;
    for (Offer* o : {&spec_offer, &eet_plan, &eet_checkpoint}) {
      if (o->fault && server.offers.count(o->uri)) through = false;
    }
    bool has_eet_task = through && (eet == kPolicies || eet == kLegacy);
    bool computed = true;
    if (has_eet_task && (eet_bad_plan || no_init_files)) computed = false;
    if (!through || !computed) {
      PBT_CHECK(count["ta_multi"] + count["ta_start"] == 0, "an assignment was requested without eligibility");
    }
    for (int e : server.eet_reports) {
      PBT_CHECK(has_eet_task, "an eligibility computation is reported that was not given");
      if (!io) PBT_EQ(e == 0, computed, "reported outcome of the eligibility computation");
    }
    if (has_eet_task && count["ta_multi"] + count["ta_start"] > 0 && !abort) PBT_EQ(count["eet_report"], 1, "reports of the eligibility computation");
    if (has_eet_task && !computed && !abort) PBT_EQ(count["eet_report"], 1, "reports of the failed eligibility computation");
    PBT_CHECK(count["eet_report"] <= 1, "eligibility reports");
    // A task's contacts lie after its assignment, and the single one comes last.
    if (count["ta_multi"] && count["ta_start"]) PBT_CHECK(first["ta_multi"] < first["ta_start"], "order of the assignments");
    if (!io) {
      if (want_names.empty()) PBT_EQ(count["ta_multi"], 0, "requests for several tasks");
      if (!want_single) PBT_EQ(count["ta_start"], 0, "requests for a single task");
      if (through && computed && !abort) {
        PBT_EQ(count["ta_multi"], want_names.empty() ? 0 : 1, "requests for several tasks");
        // Without a specification it is enough to opt out.
        if (eet != kLegacy) PBT_EQ(count["ta_start"], want_single ? 1 : 0, "requests for a single task");
      }
      if (count["ta_multi"]) {
        std::vector<std::string> names(server.multi_request.task_names().begin(), server.multi_request.task_names().end());
        PBT_CHECK(names == want_names, "the tasks asked for");
      }
      if (count["ta_start"]) {
        PBT_EQ(server.ta_request.has_task_eligibility_info(), has_info || eet == kLegacy, "eligibility in the request");
        std::map<std::string, float> want, sent;
        for (auto& [n, ok] : eligible) {
          bool several = false;
          for (auto& w : want_names) several |= w == n;
          if (!several) want[n] = ok ? 1 : 0;
        }
        for (auto& w : server.ta_request.task_eligibility_info().task_weights()) sent[w.task_name()] = w.weight();
        PBT_CHECK(sent == want && int(sent.size()) == server.ta_request.task_eligibility_info().task_weights_size(), "weights in the request");
      }
    }

    // Tasks.
    bool multi_ok = count["ta_multi"] && !fault_in("ta_multi");
    bool single_ok = count["ta_start"] && !fault_in("ta_start") && !fault_in("poll ta_start") && !server.ta_error && !server.ta_reject &&
                     !server.ta_empty && !server.ta_wrong_type;
    std::set<std::string> contributed(r.contributed_task_names().begin(), r.contributed_task_names().end());
    PBT_EQ(int(contributed.size()), r.contributed_task_names_size(), "tasks named twice");
    int ok_tasks = 0, started = 0, ok_results = 0, failures = 0;
    for (auto& j : jobs) {
      ServerTask& t = server.tasks[j.i];
      std::string n = std::to_string(j.i);
      bool assigned = j.multi ? multi_ok && std::count(server.several.begin(), server.several.end(), j.i) : single_ok;
      bool payloads = true;
      for (Offer* o : {&t.plan, &t.checkpoint, &t.policy}) payloads &= o->Error() == Code::kOk;
      bool usable = assigned && payloads && j.trouble != kBadPlan && (j.query || !no_init_files);
      bool computes = usable && Computes(j, flags);
      PBT_CHECK(j.completed <= 1, j.name << " completed several times");
      PBT_CHECK(j.modelled <= 1, j.name << " computed several times");
      if (!usable) {
        PBT_CHECK(!j.completed && !j.opened && !j.modelled, j.name << " was run without being given");
        PBT_CHECK(t.reports.empty() && t.uploads.empty() && !t.submits, j.name << " was reported without being given");
        continue;
      }
      if (!abort && !io) PBT_EQ(j.completed, 1, j.name + " completed");
      started += j.completed;
      // One report at most.
      PBT_CHECK(t.reports.size() <= 1, j.name << " reported several times");
      PBT_CHECK(t.uploads.size() <= 1 && t.submits <= 1, j.name << " uploaded several times");
      bool reported_ok = !t.reports.empty() && t.reports[0].computation_status_code() == 0;
      if (!computes) {
        PBT_CHECK(t.uploads.empty() && !t.submits && !j.has_plain && !count["start " + n] && !count["sa_start " + n], "a result of the failed computation of " << j.name << " left");
        PBT_CHECK(!reported_ok, "the failed computation of " << j.name << " is reported as a success");
        PBT_CHECK(!contributed.count(j.name) && !(j.completed && j.said), j.name << " counts as contributed although its computation failed");
        failures++;
      } else {
        if (!t.reports.empty() && !reported_ok) PBT_CHECK(io, "a computation of " << j.name << " that worked is reported as failed");
      }
      if (!abort && !io) {
        PBT_EQ(int(t.reports.size()), 1, "reports of " + j.name);
      }
      ok_results += computes;
      // Contents.
      if (!t.uploads.empty() || j.has_plain) {
        PBT_CHECK(count["start " + n] + count["sa_start " + n] > 0, "an upload that was not started");
        CheckContent(j, t);
      }
      if (t.submits) PBT_CHECK(!t.uploads.empty() && !fault_in("upload " + n) && !fault_in("plain " + n), j.name << " submitted without its upload");
      // Whether it counts.
      bool open = false, counted;
      if (j.type == fakes::kSecAgg) {
        counted = j.unmasked;
        open = j.unmask_fault;
        if (j.unmasked) {
          auto mine = j.world->Contribution();
          PBT_CHECK(mine.has_value(), "the aggregation has no result");
          for (auto& [name, v] : j.secure) PBT_CHECK((*mine)[name] == v, "the contribution of " << j.name << " under " << name);
        }
      } else {
        counted = t.submits && !fault_in("submit " + n);
      }
      if (!open) {
        PBT_EQ(contributed.count(j.name) > 0, counted, j.name + " contributed");
        if (j.completed) PBT_EQ(j.said, counted, "what was said on completion of " + j.name);
      }
      if (contributed.count(j.name)) ok_tasks++;
      if (count["start " + n] || count["sa_start " + n]) past.tried.insert(j.name);
      // Without phases an entry names one of its tasks only.
      if (contributed.count(j.name) && flags.phases) past.contributed.insert(j.name);
      if (published["PublishResultUploadStarted"]) past.tried.insert(j.name);
      if (!abort && !io && !faults && t.op_error == 0 && computes && t.encryption.Error() == Code::kOk) {
        PBT_CHECK(contributed.count(j.name), j.name << " did not contribute although nothing was wrong");
      }
      if (t.op_error) op_errors = true;
      // Recorded queries.
      if (flags.record && j.completed) {
        PBT_CHECK(j.queries.selector_context().computation_properties().federated().task_name() == j.name, "context of the recorded queries");
        PBT_CHECK(j.queries.query_size() <= int(j.selectors.size()), "recorded queries");
        if (computes && !io) PBT_EQ(j.queries.query_size(), int(j.selectors.size()), "recorded queries");
      }
      auto before = [&](const std::string& a, const std::string& b) {
        if (count[a] && count[b]) PBT_CHECK(last[a] < first[b], a << " after " << b);
      };
      before(j.multi ? "ta_multi" : "ta_start", "report " + n);
      before(j.multi ? "ta_multi" : "ta_start", "start " + n);
      before("start " + n, "upload " + n);
      before("sa_start " + n, "upload " + n);
      before("upload " + n, "submit " + n);
      if (j.multi) before("submit " + n, "ta_start");
    }
    if (published["PublishResultUploadStarted"] && !flags.phases) {
      for (int k = 0; k < 4; ++k) past.tried.insert("task" + std::to_string(k));
    }
    for (auto& n : contributed) {
      bool known = false;
      for (auto& j : jobs) known |= j.name == n;
      PBT_CHECK(known, "contributed to " << n);
    }
    PBT_EQ(completed, started, "completions");
    size_t expected = (count["ta_multi"] || !want_names.empty() ? want_names.size() : 0) + (want_single ? 1 : 0);
    if (!io) {
      auto want = contributed.empty() ? cl::FLRunnerResult::FAIL : contributed.size() == expected ? cl::FLRunnerResult::SUCCESS : cl::FLRunnerResult::PARTIAL;
      PBT_EQ(int(r.contribution_result()), int(want), "contribution result");
    }
    PBT_CHECK(r.contribution_result() == cl::FLRunnerResult::FAIL || !contributed.empty(), "a success without tasks");

    // Published phases.
    PBT_EQ(published["PublishComputationStarted"], completed, "computations started");
    int outcomes = 0;
    for (auto n : {"PublishComputationCompleted", "PublishComputationInvalidArgument", "PublishComputationIOError", "PublishComputationExampleIteratorError",
                   "PublishComputationTensorflowError", "PublishComputationInterrupted"}) {
      outcomes += published[n];
    }
    PBT_EQ(outcomes, completed, "computation outcomes");
    int up = published["PublishResultUploadIOError"] + published["PublishResultUploadClientInterrupted"] + published["PublishResultUploadServerAborted"] +
             published["PublishResultUploadCompleted"];
    int fail = published["PublishFailureUploadIOError"] + published["PublishFailureUploadClientInterrupted"] + published["PublishFailureUploadServerAborted"] +
               published["PublishFailureUploadCompleted"];
    PBT_EQ(up, published["PublishResultUploadStarted"], "upload outcomes");
    PBT_EQ(fail, published["PublishFailureUploadStarted"], "failure report outcomes");
    PBT_EQ(published["PublishResultUploadCompleted"], ok_tasks, "uploads completed");
    if (!io) {
      PBT_EQ(up + fail, completed, "reports");
      PBT_EQ(published["PublishComputationCompleted"], published["PublishResultUploadStarted"], "uploads of computations that worked");
      if (!abort) {
        PBT_EQ(up, ok_results, "uploads started");
        PBT_EQ(fail, failures, "failures reported");
      }
    }
    int ends = published["PublishCheckinFinishedV2"] + published["PublishCheckinIoError"] + published["PublishCheckinClientInterrupted"] +
               published["PublishCheckinServerAborted"] + published["PublishCheckinInvalidPayload"] + published["PublishRejected"];
    PBT_EQ(ends, published["PublishCheckin"], "outcomes of the single assignment");

    // The history entry.
    if (!io && !opstats_down) {
      auto h = History(dir);
      PBT_CHECK(h && h->opstats_size() > 0, "no history");
      auto& entry = h->opstats(h->opstats_size() - 1);
      PBT_EQ(entry.session_name(), session, "session in the history");
      PBT_EQ(entry.population_name(), server.population, "population in the history");
      std::map<int, int> want, have;
      std::set<int> known;
      for (auto& [name, kind] : Counterparts()) {
        known.insert(kind);
        if (published[name]) want[kind] = published[name];
      }
      for (auto k : Kinds(entry)) {
        if (known.count(k)) have[k]++;
      }
      for (auto& [k, v] : want) PBT_EQ(have[k], v, std::string("history events ") + Kind::EventKind_Name(Kind::EventKind(k)));
      for (auto& [k, v] : have) PBT_EQ(want[k], v, std::string("events for the history's ") + Kind::EventKind_Name(Kind::EventKind(k)));
      PBT_EQ(entry.retry_window().delay_min().seconds(), r.retry_info().minimum_delay().seconds(), "retry delay in the history");
      if (flags.phases) {
        std::multiset<std::string> named, wanted;
        for (auto& p : entry.phase_stats()) {
          if (p.phase() == OperationalStats::PhaseStats::COMPUTATION) named.insert(p.task_name());
        }
        for (auto& j : jobs) {
          if (j.completed) wanted.insert(j.name);
        }
        PBT_CHECK(named == wanted, "tasks named in the history");
      }
    }
    if (io) past.clouded = true;

    // When to come back.
    double d = r.retry_info().minimum_delay().seconds();
    auto in = [&](double lo, double hi) { return d >= lo - 120 && d <= hi + 1; };
    auto& acc = server.eet.retry_window_if_accepted();
    auto& rej = server.eet.retry_window_if_rejected();
    bool transient = in(4000, 6000), permanent = in(16000, 24000);
    bool accepted = in(acc.delay_min().seconds(), acc.delay_max().seconds()), rejected = in(rej.delay_min().seconds(), rej.delay_max().seconds());
    PBT_CHECK(transient || permanent || accepted || rejected, "a retry delay nobody gave: " << d);
    bool clean = !faults && !abort && !io && !op_errors;
    for (auto& [u, o] : server.offers) clean &= !o->fault;
    if (abort_at_start) PBT_CHECK(transient, "retry delay of a run that did not start: " << d);
    if (!abort_at_start && fault_in("eet")) PBT_CHECK(transient || permanent, "retry delay after a failed first request: " << d);
    if (clean && eet == kRejected) PBT_CHECK(rejected, "retry delay after a rejection: " << d);
    if (clean && through && !computed) PBT_CHECK(rejected, "retry delay after a failed eligibility computation: " << d);
    if (clean && server.ta_reject && !server.ta_error && !server.ta_wrong_type && count["ta_start"] && !count["ta_multi"]) PBT_CHECK(rejected, "retry delay after a rejected assignment: " << d);
    if (clean && contributed.size() == expected && expected > 0) PBT_CHECK(accepted, "retry delay after contributing: " << d);

    if (started > 0 || faults || abort) c.nontrivial(true);
    if (started > 0) c.label("computed");
    if (started > 1) c.label("several tasks");
    if (!contributed.empty()) c.label("contributed");
    if (failures) c.label("failed computation");
    if (io) c.label("storage fault");
    if (abort) c.label("interrupted");
    if (faults) c.label("network fault");
    if (clean) c.label("clean");
    for (auto& j : jobs) {
      if (j.unmasked) c.label("secure aggregation");
      if (j.type == fakes::kConfidential && contributed.count(j.name)) c.label("confidential");
    }
    if (eet == kPolicies && through) c.label("policies");
  }

  void CheckContent(Job& j, const ServerTask& t) {
    if (j.type == fakes::kSecAgg) {
      PBT_EQ(j.has_plain && !j.has_file, false, "a plain part of " + j.name);
      if (j.has_plain) PBT_CHECK(j.plain == j.file, "the plain part of " << j.name << " differs from the result");
      return;
    }
    std::string data = t.uploads[0];
    if (j.type == fakes::kConfidential) {
      absl::string_view rest = t.uploads[0];
      auto h = fcp::confidential_compute::DecodeAndConsumeClientPayloadHeader(rest);
      PBT_CHECK(h.ok(), "payload header: " << h.status());
      fcp::confidentialcompute::BlobHeader b;
      PBT_CHECK(b.ParseFromString(h->serialized_blob_header), "blob header");
      PBT_CHECK(blobs.insert(b.blob_id()).second, "the blob id is not fresh");
      PBT_CHECK(b.access_policy_sha256() == fcp::ComputeSHA256(t.policy.data), "policy hash");
      auto p = j.decryptor->Decrypt(rest, h->serialized_blob_header, h->encrypted_symmetric_key, h->serialized_blob_header, h->encapsulated_public_key);
      PBT_CHECK(p.ok(), "the upload does not decrypt: " << p.status());
      auto u = fcp::UncompressWithGzip(*p);
      PBT_CHECK(u.ok(), "the upload does not decompress");
      data = std::string(*u);
    }
    if (j.query) {
      PBT_CHECK(fakes::ReadCheckpoint(data, flags.wire ? "FCSHIM1" : "TFSHIM1") == j.tensors, "the upload of " << j.name << " differs from the query's result");
    } else {
      PBT_CHECK(data == j.file, "the upload of " << j.name << " differs from the computation's result: " << pbt::Quote(data.substr(0, 100)));
    }
  }
};

void Runs(Src& s, Case& c) {
  Past past;
  std::string dir = c.scratch() + "/run";
  Remove(dir);
  mkdir(dir.c_str(), 0777);
  int n = s.weighted({0, 3, 2, 1});
  for (int k = 0; k < n; ++k) {
    c.log << "run " << k << "\n";
    Client client(s, c, dir, past);
    client.Draw();
    auto r = client.Run();
    client.Check(r);
  }
  Remove(dir);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C16",
                   "a client run that computed at least one task or met a fault or interruption",
                   {{"runs", Runs, 12000, 300000}}, true, 8, 30);
}
