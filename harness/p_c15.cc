// LIBS: fcp_client pbt
// C15: query-based plans.
#include <unistd.h>

#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "absl/strings/str_cat.h"
#include "client_fakes.h"
#include "engine_fakes.h"
#include "fcp/client/engine/example_query_plan_engine.h"
#include "fcp/client/example_iterator_query_recorder.h"
#include "fcp/client/example_query_result.pb.h"
#include "pbt/pbt.h"

namespace fc = fcp::client;
namespace fe = fcp::client::engine;
using fc::ExampleQueryResult;
using google::internal::federated::plan::ExampleQuerySpec;
using google::internal::federated::plan::ExampleSelector;
using pbt::Case;
using pbt::Src;
using Spec = ExampleQuerySpec::OutputVectorSpec;

namespace {

struct Flags : fakes::BaseFlags {
  bool light = false;
  bool enable_lightweight_client_report_wire_format() const override { return light; }
};

template <class T>
std::string Raw(T v) {
  return std::string(reinterpret_cast<const char*>(&v), sizeof v);
}

std::string Utf8(Src& s) {
  switch (s.draw(4)) {
    case 0: return s.ident(8);
    case 1: return "";
    case 2: return std::string("a\0b", 3) + s.ident(3);
    default: return "\xc3\xa9" + s.ident(30);
  }
}

Spec::DataType Fill(Src& s, Spec::DataType t, ExampleQueryResult::VectorData::Values* v, fakes::TensorOut* want) {
  int n = s.weighted({2, 3, 3, 1});
  if (n == 3) n = s.urange(3, 30);
  switch (t) {
    case Spec::INT32: {
      want->type = 'i';
      auto* m = v->mutable_int32_values();
      for (int i = 0; i < n; ++i) {
        int32_t x = int32_t(s.edgy(32));
        m->add_value(x);
        want->elements.push_back(Raw(x));
      }
      break;
    }
    case Spec::INT64: {
      want->type = 'l';
      auto* m = v->mutable_int64_values();
      for (int i = 0; i < n; ++i) {
        int64_t x = int64_t(s.edgy(64));
        m->add_value(x);
        want->elements.push_back(Raw(x));
      }
      break;
    }
    case Spec::BOOL: {
      want->type = 'b';
      auto* m = v->mutable_bool_values();
      for (int i = 0; i < n; ++i) {
        bool x = s.flip();
        m->add_value(x);
        want->elements.push_back(Raw(x));
      }
      break;
    }
    case Spec::FLOAT: {
      want->type = 'f';
      auto* m = v->mutable_float_values();
      for (int i = 0; i < n; ++i) {
        uint32_t bits = s.edgy(32);
        float x;
        memcpy(&x, &bits, 4);
        m->add_value(x);
        want->elements.push_back(Raw(x));
      }
      break;
    }
    case Spec::DOUBLE: {
      want->type = 'd';
      auto* m = v->mutable_double_values();
      for (int i = 0; i < n; ++i) {
        double x = s.flip() ? double(s.edgy_signed()) / 3 : double(s.draw(5));
        m->add_value(x);
        want->elements.push_back(Raw(x));
      }
      break;
    }
    case Spec::BYTES: {
      want->type = 's';
      auto* m = v->mutable_bytes_values();
      for (int i = 0; i < n; ++i) {
        std::string x = s.bytes(20);
        m->add_value(x);
        want->elements.push_back(x);
      }
      break;
    }
    default: {
      want->type = 's';
      auto* m = v->mutable_string_values();
      for (int i = 0; i < n; ++i) {
        std::string x = Utf8(s);
        m->add_value(x);
        want->elements.push_back(x);
      }
      break;
    }
  }
  return t;
}

class Factory : public fe::ExampleIteratorFactory {
 public:
  bool CanHandle(const ExampleSelector& e) override { return handles(e.collection_uri()); }
  absl::StatusOr<std::unique_ptr<fc::ExampleIterator>> CreateExampleIterator(const ExampleSelector& e) override {
    asked.push_back(e);
    return create(e);
  }
  bool ShouldCollectStats() override { return stats; }
  std::function<bool(const std::string&)> handles;
  std::function<absl::StatusOr<std::unique_ptr<fc::ExampleIterator>>(const ExampleSelector&)> create;
  std::vector<ExampleSelector> asked;
  bool stats = true;
};

std::string ReadFile(const std::string& path) {
  std::ifstream in(path, std::ios::binary);
  std::stringstream b;
  b << in.rdbuf();
  return b.str();
}

void Queries(Src& s, Case& c) {
  Flags flags;
  flags.light = s.flip();
  bool faults = s.chance(1, 2);
  ExampleQuerySpec spec;
  struct Plan {
    ExampleSelector selector;
    std::string serialized;
    int fail = 0;  // 1 create, 2 next, 3 no result, 4 garbage
    int factory = -1;
    bool more = false;
  };
  std::vector<Plan> plans;
  std::map<std::string, fakes::TensorOut> want;
  bool bad_data = false;
  bool shared = false;
  int64_t count = 0;
  c.log << (flags.light ? "light" : "file") << "\n";

  // Who answers what. The first that handles a collection answers it.
  std::vector<std::unique_ptr<Factory>> factories;
  int nf = s.weighted({faults ? 1 : 0, 4, 3, 2});
  for (int i = 0; i < nf; ++i) {
    auto f = std::make_unique<Factory>();
    int mask = s.chance(1, 2) ? 255 : int(s.draw(256));
    if (i == nf - 1 && !faults) mask = 255;
    f->handles = [mask](const std::string& uri) { return (mask >> (uri.size() % 8)) & 1; };
    f->stats = s.chance(3, 4);
    c.log << "factory " << i << " mask " << mask << (f->stats ? " stats" : "") << "\n";
    factories.push_back(std::move(f));
  }

  int nq = s.weighted({1, 3, 4, 2, 1});
  int vectors = 0;
  for (int q = 0; q < nq; ++q) {
    auto* eq = spec.add_example_queries();
    Plan p;
    p.selector.set_collection_uri("app:/" + s.ident(8));
    if (s.flip()) {
      p.selector.mutable_criteria()->set_type_url("type/" + s.ident(3));
      p.selector.mutable_criteria()->set_value(s.bytes(6));
    }
    if (s.chance(1, 4)) p.selector.mutable_resumption_token()->set_value(s.bytes(4));
    *eq->mutable_example_selector() = p.selector;
    for (int i = 0; i < nf && p.factory < 0; ++i) {
      if (factories[i]->handles(p.selector.collection_uri())) p.factory = i;
    }
    ExampleQueryResult result;
    c.log << "query " << q << " " << p.selector.collection_uri() << " by " << p.factory << ":";
    int no = s.weighted({1, 3, 4, 2, 1});
    std::vector<std::pair<std::string, Spec::DataType>> names;
    std::map<std::string, fakes::TensorOut> contents;
    for (int o = 0; o < no; ++o) {
      std::string output = absl::StrCat("out", q, "_", s.ident(3), "/", o);
      Spec& os = (*eq->mutable_output_vector_specs())[output];
      vectors++;
      if (!names.empty() && s.chance(1, 6)) {
        // A second output of the same vector.
        auto& n = names[s.draw(names.size())];
        os.set_vector_name(n.first);
        os.set_data_type(n.second);
        shared = true;
        c.log << " " << output << "=" << n.first << "(again)";
        if (contents.count(n.first)) want[output] = contents[n.first];
        continue;
      }
      std::string vector = s.chance(1, 3) ? output : absl::StrCat(s.ident(4), o);
      auto type = Spec::DataType(s.urange(1, 7));
      os.set_vector_name(vector);
      os.set_data_type(type);
      names.push_back({vector, type});
      c.log << " " << output << "=" << vector << ":" << int(type);
      int odd = faults && s.chance(1, 10) ? s.urange(1, 4) : 0;
      if (flags.light && (type == Spec::BOOL || type == Spec::BYTES)) {
        // Not supported in this format.
        if (!faults && !s.chance(1, 8)) {
          type = Spec::INT64;
          os.set_data_type(type);
          names.back().second = type;
        } else {
          bad_data = true;
        }
      }
      fakes::TensorOut t;
      auto& values = (*result.mutable_vector_data()->mutable_vectors())[vector];
      switch (odd) {
        case 1:
          result.mutable_vector_data()->mutable_vectors()->erase(vector);
          bad_data = true;
          c.log << "(missing)";
          break;
        case 2: {
          auto other = Spec::DataType(s.urange(1, 7));
          if (other == type) other = type == Spec::INT32 ? Spec::INT64 : Spec::INT32;
          Fill(s, other, &values, &t);
          bad_data = true;
          c.log << "(is " << other << ")";
          break;
        }
        case 3:
          values.Clear();
          bad_data = true;
          c.log << "(no values)";
          break;
        case 4:
          os.set_data_type(Spec::UNSPECIFIED);
          names.back().second = Spec::UNSPECIFIED;
          Fill(s, type, &values, &t);
          bad_data = true;
          c.log << "(unspecified)";
          break;
        default:
          Fill(s, type, &values, &t);
          want[output] = t;
          contents[vector] = t;
          c.log << "[" << t.elements.size() << "]";
      }
    }
    // The source may know more than was asked for.
    if (s.chance(1, 3)) {
      fakes::TensorOut t;
      std::string extra = "extra" + s.ident(3);
      Fill(s, Spec::DataType(s.urange(1, 7)), &(*result.mutable_vector_data()->mutable_vectors())[extra], &t);
      c.log << " +" << extra;
    }
    if (s.flip()) result.mutable_stats()->set_example_count_for_logs(s.draw(1000));
    p.serialized = result.SerializeAsString();
    if (faults && s.chance(1, 8)) p.fail = s.urange(1, 4);
    if (p.fail == 4) p.serialized = "\x0a\xff garbage";
    p.more = s.chance(1, 6);
    if (p.fail) c.log << " fails " << p.fail;
    c.log << " " << p.serialized.size() << " bytes, " << result.stats().example_count_for_logs() << " examples\n";
    count += result.stats().example_count_for_logs();
    plans.push_back(std::move(p));
  }

  // Queries are answered in order, one at a time.
  size_t next = 0;
  std::string problem;
  for (int i = 0; i < nf; ++i) {
    factories[i]->create = [&, i](const ExampleSelector& e) -> absl::StatusOr<std::unique_ptr<fc::ExampleIterator>> {
      if (next >= plans.size()) {
        problem = "more queries than in the plan";
        return absl::InternalError(problem);
      }
      Plan& p = plans[next++];
      if (p.factory != i) problem = "answered by another factory";
      if (e.SerializeAsString() != p.selector.SerializeAsString()) problem = "another query than in the plan";
      if (p.fail == 1) return absl::PermissionDeniedError("denied");
      auto it = std::make_unique<fakes::Playback>();
      if (p.fail == 2) {
        it->fail_at = 0;
        it->error = absl::UnavailableError("source");
      }
      if (p.fail != 3) it->examples.push_back(p.serialized);
      if (p.more) it->examples.push_back("another result");
      if (p.fail == 3) it->examples.clear();
      return it;
    };
  }
  std::vector<fe::ExampleIteratorFactory*> list;
  for (auto& f : factories) list.push_back(f.get());
  fakes::DatasetStats stats;
  fc::SelectorContext context;
  context.mutable_computation_properties()->set_session_name("s" + s.ident(3));
  fc::ExampleIteratorQueryRecorderImpl recorder(context);
  bool record = s.chance(3, 4);
  bool unwritable = s.chance(1, 15);  // only matters where a file is written
  std::string path = c.scratch() + (unwritable ? "/missing/out.ckp" : "/out.ckp");
  fe::ExampleQueryPlanEngine engine(list, &stats, &flags, record ? &recorder : nullptr);
  fe::PlanResult result = engine.RunPlan(spec, path);
  PBT_CHECK(problem.empty(), problem);

  // What happened up to the first failing query.
  std::map<std::string, std::pair<int64_t, int64_t>> want_stats;
  int64_t bytes = 0;
  size_t recorded = 0;
  bool stopped = false;
  std::vector<int> read;
  for (auto& p : plans) {
    if (p.factory < 0 || p.fail == 1) {
      stopped = true;
      break;
    }
    recorded++;
    bool got = p.fail == 0 || p.fail == 4;
    read.push_back(got);
    if (factories[p.factory]->stats) {
      auto& t = want_stats[p.selector.collection_uri()];
      t.first += got;
      t.second += got ? p.serialized.size() : 0;
      bytes += p.serialized.size();
    }
    if (p.fail) {
      stopped = true;
      break;
    }
  }
  PBT_CHECK(stats.total == want_stats, "dataset statistics differ from what was read");
  auto queries = recorder.StopRecordingAndGetQueries();
  PBT_EQ(size_t(queries.query_size()), record ? recorded : 0, "recorded queries");
  for (int i = 0; i < queries.query_size(); ++i) {
    PBT_EQ(queries.query(i).collection_uri(), plans[i].selector.collection_uri(), "recorded query");
    PBT_CHECK(queries.query(i).criteria().SerializeAsString() == plans[i].selector.criteria().SerializeAsString(), "recorded criteria");
    PBT_EQ(queries.query(i).example_count(), read[i], "recorded example count");
  }
  PBT_EQ(queries.selector_context().computation_properties().session_name(), context.computation_properties().session_name(), "recorded context");

  bool ok = !stopped && !bad_data && (flags.light || !unwritable);
  if (unwritable && !flags.light && !stopped && !bad_data) c.label("checkpoint cannot be written");
  c.nontrivial(vectors > 0 && nq > 0);
  c.label(ok ? "uploads" : "fails");
  if (shared) c.label("vector used twice");
  if (!ok) {
    PBT_CHECK(result.outcome != fe::PlanOutcome::kSuccess, "succeeded with missing, mistyped or failing data");
    PBT_CHECK(!result.original_status.ok(), "failed with an OK status");
    PBT_CHECK(result.federated_compute_checkpoint.empty(), "a checkpoint although the computation failed");
    PBT_CHECK(access(path.c_str(), F_OK) != 0, "a checkpoint file although the computation failed");
    if (stopped) PBT_CHECK(result.outcome == fe::PlanOutcome::kExampleIteratorError, "a failing source is not reported as such");
    unlink(path.c_str());
    return;
  }
  PBT_CHECK(result.outcome == fe::PlanOutcome::kSuccess, "failed: " + result.original_status.ToString());
  std::string data, magic;
  if (flags.light) {
    PBT_CHECK(access(path.c_str(), F_OK) != 0, "a file in the other format too");
    data = std::string(result.federated_compute_checkpoint);
    magic = "FCSHIM1";
  } else {
    PBT_CHECK(result.federated_compute_checkpoint.empty(), "a checkpoint in the other format too");
    data = ReadFile(path);
    unlink(path.c_str());
    magic = "TFSHIM1";
  }
  auto got = fakes::ReadCheckpoint(data, magic);
  for (auto& w : want) {
    auto it = got.find(w.first);
    PBT_CHECK(it != got.end(), "no output " + w.first);
    PBT_EQ(it->second.type, w.second.type, "type of " + w.first);
    PBT_EQ(it->second.elements.size(), w.second.elements.size(), "size of " + w.first);
    PBT_CHECK(it->second == w.second, "values of " + w.first);
  }
  PBT_EQ(got.size(), want.size(), "number of outputs");
  PBT_EQ(int64_t(result.example_stats.example_count), count, "example count");
  PBT_EQ(int64_t(result.example_stats.example_size_bytes), bytes, "example bytes");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C15", "the plan has at least one query with at least one output", {{"queries", Queries, 120000, 1200000}});
}
