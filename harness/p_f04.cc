// LIBS: fcp_client pbt
// F04: graph sessions: what is saved, restored and read, and the files they
// use on the way.
#include <filesystem>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/cord.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "fcp/base/result.h"
#include "fcp/tensorflow/tf_session.h"
#include "pbt/pbt.h"
#include "tensorflow/core/public/session.h"

namespace tf = tensorflow;
namespace fs = std::filesystem;
using google::internal::federated::plan::CheckpointOp;
using pbt::Case;
using pbt::Src;

namespace {

std::string Show(const tf::Tensor& t) {
  tf::TensorProto p;
  t.AsProtoField(&p);
  return p.SerializeAsString();
}

// The graph: a state, an operation that writes it to a file, one that reads
// it from a file, and operations that only note that they ran.
struct Graph {
  std::string state, tmp;
  std::vector<std::string> ran;         // operations, with what they were fed
  std::vector<std::string> fail;        // operations that fail
  bool fail_late = false;               // ... after having done their work
  bool create_fails = false;
  int live = 0;
  std::string problem;
  std::map<std::string, tf::Tensor> values;
};
std::mutex g_mu;
std::map<std::string, Graph*> g_graphs;

struct FakeSession : tf::Session {
  Graph* g = nullptr;
  ~FakeSession() override {
    if (g) g->live--;
  }
  absl::Status Create(const tf::GraphDef& def) override {
    std::lock_guard<std::mutex> l(g_mu);
    if (def.node_size() != 1 || !g_graphs.count(def.node(0).name())) return absl::InvalidArgumentError("no such graph");
    if (g_graphs[def.node(0).name()]->create_fails) return absl::InternalError("cannot create");
    g = g_graphs[def.node(0).name()];
    g->live++;
    return absl::OkStatus();
  }
  absl::Status Close() override { return absl::OkStatus(); }
  absl::Status Run(const std::vector<std::pair<std::string, tf::Tensor>>& inputs, const std::vector<std::string>& names,
                   const std::vector<std::string>& targets, std::vector<tf::Tensor>* outputs) override {
    if (!g) return absl::FailedPreconditionError("not created");
    std::string file;
    std::string fed;
    for (auto& i : inputs) {
      if (i.first == "filename:0" && i.second.dtype() == tf::DT_STRING) file = i.second.scalar<tf::tstring>()();
      else fed += absl::StrCat(i.first, "=", Show(i.second), ";");
    }
    for (auto& t : targets) {
      bool fails = std::find(g->fail.begin(), g->fail.end(), t) != g->fail.end();
      if (fails && !g->fail_late) return absl::InternalError("fails: " + t);
      g->ran.push_back(fed.empty() ? t : absl::StrCat(t, "(", fed, ")"));
      if (t == "save" || t == "restore") {
        if (fs::path(file).parent_path().lexically_normal() != fs::path(g->tmp).lexically_normal() / "" && fs::path(file).parent_path() != fs::path(g->tmp))
          g->problem = "scratch file elsewhere: " + file;
      }
      if (t == "save") {
        if (fs::exists(file)) g->problem = "the scratch file is in use already";
        std::ofstream out(file, std::ios::binary);
        out << g->state;
        out.close();
        if (!out) return absl::NotFoundError("cannot write");
      } else if (t == "restore") {
        std::ifstream in(file, std::ios::binary);
        if (!in) return absl::NotFoundError("cannot read");
        std::stringstream all;
        all << in.rdbuf();
        if (!fails) g->state = all.str();
      } else if (absl::StartsWith(t, "op_")) {
      } else {
        return absl::NotFoundError("no operation " + t);
      }
      if (fails) return absl::InternalError("fails: " + t);
    }
    if (outputs) outputs->clear();
    for (auto& n : names) {
      if (!g->values.count(n)) return absl::NotFoundError("no tensor " + n);
      outputs->push_back(g->values[n]);
    }
    return absl::OkStatus();
  }
};

absl::Cord Pieces(Src& s, const std::string& v) {
  absl::Cord c;
  size_t at = 0;
  while (at < v.size()) {
    size_t n = s.flip() ? v.size() - at : s.urange(1, v.size() - at);
    c.Append(absl::MakeCordFromExternal(absl::string_view(v).substr(at, n), [] {}));
    at += n;
  }
  return c;
}

struct Step {
  int kind;
  CheckpointOp op;
  std::string bytes;
  absl::Cord cord;
  std::vector<std::string> fail;
  bool fail_late;
  std::vector<std::pair<std::string, tf::Tensor>> tensors;
  std::vector<std::string> names;
  std::string run;
};

struct Member {
  Graph graph;
  std::string id;
  int bad = 0;  // 1: the graph cannot be parsed, 2: it cannot be created
  bool as_string = false;
  std::string tmp;
  std::vector<Step> steps;
  std::string failure;
};

std::string Text(const std::vector<std::string>& v) {
  std::string r;
  for (auto& x : v) absl::StrAppend(&r, x, " ");
  return r;
}

#define NEED(cond, what) \
  if (!(cond)) {         \
    m->failure = what;   \
    return;              \
  }

void Play(Member* m, bool there) {
  Graph& g = m->graph;
  tf::GraphDef def;
  def.add_node()->set_name(m->id);
  std::string bytes = m->bad == 1 ? "\x0a\xff\xff" : def.SerializeAsString();
  g.create_fails = m->bad == 2;
  {
    std::unique_ptr<fcp::TfSession> session;
    if (m->as_string) session = std::make_unique<fcp::TfSession>(m->tmp, absl::string_view(bytes));
    else session = std::make_unique<fcp::TfSession>(m->tmp, absl::Cord(bytes));
    NEED(session->Ready().is_error() == (m->bad != 0), "readiness of the session");
    for (auto& s : m->steps) {
      g.ran.clear();
      g.fail = s.fail;
      g.fail_late = s.fail_late;
      std::string before = g.state;
      std::vector<std::string> want;
      bool fails = m->bad != 0, got_error;
      auto expect = [&](const std::string& op) {
        if (op.empty()) return;
        if (std::find(s.fail.begin(), s.fail.end(), op.substr(0, op.find('('))) != s.fail.end()) fails = true;
        want.push_back(op);
      };
      bool saver = s.op.has_saver_def();
      if (s.kind == 0) {
        expect(s.op.before_save_op());
        if (saver) {
          expect("save");
          if (!there) fails = true;
        }
        expect(s.op.after_save_op());
        auto r = session->SaveState(s.op);
        got_error = r.is_error();
        if (!got_error && !fails) {
          NEED(std::string(r.GetValueOrDie()) == (saver ? before : ""), "the saved state is not the state of the session");
          NEED(g.state == before, "saving changes the state");
        }
      } else if (s.kind == 1) {
        expect(s.op.before_restore_op());
        if (saver) {
          expect("restore");
          if (!there) fails = true;
        }
        expect(s.op.after_restore_op());
        got_error = session->RestoreState(s.op, s.cord).is_error();
        if (!got_error && !fails) NEED(g.state == (saver ? s.bytes : before), "the restored state is not the one given");
      } else if (s.kind == 2) {
        std::string fed;
        for (auto& t : s.tensors) fed += absl::StrCat(t.first, "=", Show(t.second), ";");
        if (saver) fails = true;
        if (!s.op.before_restore_op().empty()) expect(fed.empty() ? s.op.before_restore_op() : absl::StrCat(s.op.before_restore_op(), "(", fed, ")"));
        expect(s.op.after_restore_op());
        got_error = session->RestoreState(s.op, s.tensors).is_error();
        if (saver) NEED(g.ran.empty(), "operations run for a refused request");
      } else if (s.kind == 3) {
        expect(s.run);
        got_error = session->RunOp(s.run).is_error();
      } else {
        for (auto& n : s.names)
          if (!g.values.count(n)) fails = true;
        auto r = session->GetOutputs(std::make_unique<std::vector<std::string>>(s.names));
        got_error = r.is_error();
        if (!got_error && !fails) {
          auto map = std::move(r).GetValueOrDie();
          std::map<std::string, std::string> have, wanted;
          for (auto& kv : *map) have[kv.first] = Show(kv.second);
          for (auto& n : s.names) wanted[n] = Show(g.values[n]);
          NEED(have == wanted, "other outputs");
        }
      }
      NEED(g.problem.empty(), g.problem);
      NEED(got_error == fails, fails ? "a failure is not reported" : "an error without any failure");
      if (!fails) NEED(g.ran == want, "operations run: " + Text(g.ran) + "instead of " + Text(want));
      if (m->bad) NEED(g.ran.empty(), "operations run in a session that is not ready");
      // Whatever happened, nothing runs after the operation meant to come last.
      if (s.kind <= 2 && !saver && g.ran.size() > want.size()) NEED(false, "too many operations run");
    }
  }
  NEED(g.live == 0, "the session is left behind");
}

void Sessions(Src& s, Case& c) {
  int n = s.chance(1, 4) ? s.urange(2, 3) : 1;
  fs::path dir = fs::path(c.scratch()) / "tmp";
  bool there = !s.chance(1, 12);
  if (there) fs::create_directories(dir);
  std::vector<std::unique_ptr<Member>> ms;
  tf::verif::g_new_session = [](const tf::SessionOptions&, tf::Session** out) {
    *out = new FakeSession;
    return absl::OkStatus();
  };
  bool nontrivial = n > 1 || !there;
  {
    std::lock_guard<std::mutex> l(g_mu);
    g_graphs.clear();
  }
  for (int i = 0; i < n; ++i) {
    ms.push_back(std::make_unique<Member>());
    Member& m = *ms.back();
    m.id = absl::StrCat("graph", i);
    m.tmp = s.chance(1, 3) ? dir.string() + "/" : dir.string();
    m.graph.tmp = dir.string();
    m.graph.state = absl::StrCat("initial", i);
    m.as_string = s.flip();
    if (s.chance(1, 10)) m.bad = s.urange(1, 2);
    int k = s.draw(4);
    for (int j = 0; j < k; ++j) m.graph.values[absl::StrCat("out", j, ":0")] = tf::Tensor(s.bytes(5));
    k = s.urange(1, 6);
    m.steps.reserve(k);  // their texts are pointed to
    for (int j = 0; j < k; ++j) {
      m.steps.emplace_back();
      Step& st = m.steps.back();
      st.kind = s.weighted({4, 4, 2, 1, 2});
      auto op = [&](const char* what) { return s.chance(1, 3) ? std::string() : absl::StrCat("op_", what, s.draw(2)); };
      if (s.chance(3, 4)) st.op.set_before_save_op(op("bs"));
      if (s.chance(3, 4)) st.op.set_after_save_op(op("as"));
      if (s.chance(3, 4)) st.op.set_before_restore_op(op("br"));
      if (s.chance(3, 4)) st.op.set_after_restore_op(op("ar"));
      if (st.kind == 2 ? s.chance(1, 6) : s.chance(4, 5)) {
        auto* d = st.op.mutable_saver_def();
        d->set_filename_tensor_name("filename:0");
        d->set_save_tensor_name(s.flip() ? "save:0" : "save");
        d->set_restore_op_name("restore");
      }
      st.bytes = s.chance(1, 20) ? std::string(s.urange(4000, 70000), char(s.draw(256))) + s.bytes(3) : s.bytes(s.chance(1, 5) ? 0 : 12);
      st.cord = Pieces(s, st.bytes);
      int t = s.draw(3);
      for (int x = 0; x < t; ++x) st.tensors.push_back({absl::StrCat("v", x), tf::Tensor(s.bytes(4))});
      st.run = op("run");
      for (auto& kv : m.graph.values)
        if (s.chance(2, 3)) st.names.push_back(kv.first);
      s.shuffle(&st.names);
      if (s.chance(1, 10)) st.names.push_back("missing:0");
      st.fail_late = s.flip();
      if (s.chance(1, 4)) {
        std::vector<std::string> all = {"save", "restore", st.op.before_save_op(), st.op.after_save_op(), st.op.before_restore_op(), st.op.after_restore_op(), st.run};
        for (auto& a : all)
          if (!a.empty() && s.chance(1, 3)) st.fail.push_back(a);
      }
      nontrivial |= (st.kind <= 1 && st.op.has_saver_def()) || !st.fail.empty();
      static const char* kKinds[] = {"save", "restore", "restore tensors", "run", "outputs"};
      c.log << m.id << (m.bad ? " (bad)" : "") << ": " << kKinds[st.kind] << (st.op.has_saver_def() ? " with saver " : " ") << st.op.before_save_op() << "|" << st.op.after_save_op() << "|"
            << st.op.before_restore_op() << "|" << st.op.after_restore_op() << " " << st.bytes.size() << " bytes, fails " << Text(st.fail) << (st.fail_late ? "late" : "") << "\n";
      c.label(kKinds[st.kind]);
      if (!st.fail.empty()) c.label("with failures");
    }
    std::lock_guard<std::mutex> l(g_mu);
    g_graphs[m.id] = &m.graph;
  }
  if (!there) c.log << "the scratch directory is missing\n";
  c.nontrivial(nontrivial);
  if (n == 1) {
    Play(ms[0].get(), there);
  } else {
    std::vector<std::thread> ts;
    for (auto& m : ms) ts.emplace_back(Play, m.get(), there);
    for (auto& t : ts) t.join();
    c.label("several at once");
  }
  tf::verif::g_new_session = nullptr;
  for (auto& m : ms) PBT_CHECK(m->failure.empty(), m->id + ": " + m->failure);
  if (there) {
    for (auto& e : fs::directory_iterator(dir)) PBT_CHECK(false, "left behind: " + e.path().string());
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "F04", "state saved or restored through a file, a failing operation, several sessions at once, or no scratch directory",
                   {{"sessions", Sessions, 20000, 300000}}, true, 8, 40);
}
