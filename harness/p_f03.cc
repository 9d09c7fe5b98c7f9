// LIBS: fcp_tfops
// F03: datasets and slice callbacks reach the provider that their token names,
// unchanged, and only while it is registered.
#include <atomic>
#include <thread>

#include "fcp/tensorflow/external_dataset.h"
#include "fcp/tensorflow/serve_slices_registry.h"
#include "fcp/tensorflow/test_selector.pb.h"
#include "tfops.h"

using pbt::Case;
using pbt::Src;
using namespace tfops;

namespace {

// What an iterator will answer, in order; an empty script means the end.
struct Answer {
  absl::StatusCode code = absl::StatusCode::kOk;
  std::string value;
};
using Script = std::vector<Answer>;

struct Log {
  std::vector<std::string> selectors;
  int live_datasets = 0, live_iterators = 0;
};

class ScriptIterator : public fcp::ExternalDatasetIterator {
 public:
  ScriptIterator(Script s, Log* l) : s_(std::move(s)), l_(l) { ++l_->live_iterators; }
  ~ScriptIterator() override { --l_->live_iterators; }
  absl::StatusOr<std::string> GetNext() override {
    // Thread-safe, as the interface asks for.
    size_t i = at_.fetch_add(1);
    if (i >= s_.size()) return absl::OutOfRangeError("end");
    if (s_[i].code != absl::StatusCode::kOk)
      return absl::Status(s_[i].code, s_[i].value);
    return s_[i].value;
  }

 private:
  const Script s_;
  std::atomic<size_t> at_{0};
  Log* l_;
};
class ScriptProvider : public fcp::ExternalDatasetProvider {
 public:
  ScriptProvider(std::map<std::string, Script> by, Log* l) : by_(std::move(by)), l_(l) {}
  absl::StatusOr<std::unique_ptr<fcp::ExternalDataset>> MakeDataset(
      absl::string_view selector) override {
    l_->selectors.push_back(std::string(selector));
    auto it = by_.find(std::string(selector));
    if (it == by_.end()) return absl::UnavailableError("no such selector");
    Script s = it->second;
    Log* l = l_;
    return fcp::ExternalDataset::FromFunction(
        [s, l] { return std::make_unique<ScriptIterator>(s, l); });
  }

 private:
  std::map<std::string, Script> by_;
  Log* l_;
};

std::string Bytes(const fcp::RandomToken& t) { return t.ToString(); }

Script MakeScript(Src& s, int who, int which) {
  Script out;
  int n = s.small(0, 5);
  for (int i = 0; i < n; ++i) {
    Answer a;
    a.value = absl::StrCat(who, ".", which, ".", i, ".", s.bytes(3));
    if (s.chance(1, 8)) {
      a.code = s.of<absl::StatusCode>(
          {absl::StatusCode::kUnavailable, absl::StatusCode::kInternal,
           absl::StatusCode::kCancelled, absl::StatusCode::kInvalidArgument});
    }
    out.push_back(a);
  }
  return out;
}

void Datasets(Src& s, Case& c) {
  struct Provider {
    std::map<std::string, Script> by;
    Log log;
    std::optional<fcp::HostObjectRegistration> reg;
    std::string token;
  };
  struct Iter {
    std::unique_ptr<tf::data::IteratorBase> it;
    Script script;
    size_t at = 0;
  };
  std::vector<std::unique_ptr<Provider>> providers;
  std::vector<std::string> selectors = {"", "a", std::string("a\0b", 3), s.bytes(6)};
  struct Data {
    tf::data::DatasetBase* d;
    Script script;
  };
  std::vector<Data> datasets;
  std::vector<Iter> iters;
  tf::data::IteratorContext ictx;
  int used_two = 0;
  int steps = s.range(3, 25);
  for (int i = 0; i < steps; ++i) {
    int op = s.weighted({2, 1, 4, 4, 8, 1});
    if (op == 0 || providers.empty()) {
      auto p = std::make_unique<Provider>();
      int who = providers.size();
      for (size_t k = 0; k < selectors.size(); ++k)
        if (s.chance(2, 3)) p->by[selectors[k]] = MakeScript(s, who, k);
      p->reg.emplace(fcp::ExternalDatasetProviderRegistry::Register(
          std::make_shared<ScriptProvider>(p->by, &p->log)));
      p->token = Bytes(p->reg->token());
      for (const auto& q : providers)
        PBT_CHECK(q->token != p->token, "two registrations share a token");
      c.log << "register " << who << "; ";
      providers.push_back(std::move(p));
    } else if (op == 1) {
      size_t k = s.draw(providers.size());
      providers[k]->reg.reset();
      c.log << "unregister " << k << "; ";
    } else if (op == 2) {
      size_t k = s.draw(providers.size());
      Provider& p = *providers[k];
      std::string sel = s.pick(selectors), token = p.token;
      int bad = s.chance(1, 8) ? 1 + s.draw(3) : 0;
      if (bad == 1) token.pop_back();
      if (bad == 2) token += 'x';
      if (bad == 3) token[s.draw(token.size())] ^= 1 << s.draw(8);
      size_t before = p.log.selectors.size();
      auto r = Run("ExternalDataset", {{Str(token)}, {Str(sel)}});
      c.log << "dataset of " << k << " for " << pbt::Hex(sel) << " bad " << bad << " -> "
            << r->status.ToString().substr(0, 40) << "; ";
      bool reached = bad == 0 && p.reg.has_value();
      PBT_EQ(p.log.selectors.size() - before, reached ? 1u : 0u, "provider calls");
      auto* k2 = static_cast<tf::data::DatasetOpKernel*>(r->kernel.get());
      if (!reached) {
        PBT_CHECK(absl::IsInvalidArgument(r->status), r->status.ToString());
        c.label("token refused");
        continue;
      }
      PBT_EQ(pbt::Hex(p.log.selectors.back()), pbt::Hex(sel), "selector");
      auto it = p.by.find(sel);
      if (it == p.by.end()) {
        PBT_CHECK(r->status == absl::UnavailableError("no such selector"),
                  "provider error became " << r->status.ToString());
        c.label("selector refused");
        continue;
      }
      PBT_CHECK(r->status.ok() && k2->last != nullptr, r->status.ToString());
      PBT_CHECK(k2->last->output_dtypes() == tf::DataTypeVector{tf::DT_STRING},
                "element type");
      datasets.push_back({k2->last, it->second});
    } else if (op == 3 && !datasets.empty()) {
      const Data& d = s.pick(datasets);
      Iter it;
      PBT_CHECK(d.d->MakeIterator("p", &it.it).ok() && it.it, "no iterator");
      it.script = d.script;
      iters.push_back(std::move(it));
    } else if (op == 4 && !iters.empty()) {
      size_t k = s.draw(iters.size());
      Iter& it = iters[k];
      std::vector<tf::Tensor> out;
      bool end = s.flip();
      absl::Status st = it.it->GetNext(&ictx, &out, &end);
      if (it.at >= it.script.size()) {
        PBT_CHECK(st.ok() && end && out.empty(), "at the end: " << st.ToString());
        c.label("end");
      } else {
        const Answer& a = it.script[it.at++];
        if (a.code == absl::StatusCode::kOk) {
          PBT_CHECK(st.ok() && !end, "element lost: " << st.ToString());
          PBT_EQ(out.size(), 1u, "components");
          PBT_CHECK(out[0].dtype() == tf::DT_STRING && out[0].dims() == 0, "type");
          PBT_EQ(pbt::Hex(std::string(out[0].scalar<tf::tstring>()())),
                 pbt::Hex(a.value), "element");
          c.nontrivial();
        } else {
          PBT_CHECK(st == absl::Status(a.code, a.value),
                    "error became " << st.ToString());
          c.label("error passed on");
        }
      }
    } else if (op == 5 && !datasets.empty()) {
      // Iterators keep the dataset alive.
      size_t k = s.draw(datasets.size());
      datasets[k].d->Unref();
      datasets.erase(datasets.begin() + k);
    }
  }
  iters.clear();
  for (auto& d : datasets) d.d->Unref();
  for (auto& p : providers) PBT_EQ(p->log.live_iterators, 0, "iterators left");
}

// Several threads take elements from one iterator.
void Shared(Src& s, Case& c) {
  Log log;
  Script script;
  int n = s.range(1, 30);
  for (int i = 0; i < n; ++i) script.push_back({absl::StatusCode::kOk, absl::StrCat(i)});
  auto reg = fcp::ExternalDatasetProviderRegistry::Register(
      std::make_shared<ScriptProvider>(
          std::map<std::string, Script>{{"s", script}}, &log));
  auto r = Run("ExternalDataset", {{Str(Bytes(reg.token()))}, {Str("s")}});
  PBT_CHECK(r->status.ok(), r->status.ToString());
  auto* d = static_cast<tf::data::DatasetOpKernel*>(r->kernel.get())->last;
  std::unique_ptr<tf::data::IteratorBase> it;
  PBT_CHECK(d->MakeIterator("p", &it).ok(), "no iterator");
  int threads = s.range(2, 4);
  std::vector<std::vector<std::string>> got(threads);
  std::vector<std::thread> ts;
  for (int t = 0; t < threads; ++t)
    ts.emplace_back([&, t] {
      tf::data::IteratorContext ictx;
      for (;;) {
        std::vector<tf::Tensor> out;
        bool end = false;
        if (!it->GetNext(&ictx, &out, &end).ok() || end) return;
        got[t].push_back(std::string(out.at(0).scalar<tf::tstring>()()));
      }
    });
  for (auto& t : ts) t.join();
  std::multiset<std::string> all, want;
  for (const auto& g : got) all.insert(g.begin(), g.end());
  for (const auto& a : script) want.insert(a.value);
  c.log << n << " elements, " << threads << " threads";
  PBT_CHECK(all == want, "elements lost or repeated: got " << all.size());
  it.reset();
  d->Unref();
  c.nontrivial(n > 3);
}

void ProtoSelector(Src& s, Case& c) {
  struct P : fcp::ExternalDatasetProvider::UsingProtoSelector<fcp::TestSelector> {
    std::vector<std::string> seen;
    absl::StatusOr<std::unique_ptr<fcp::ExternalDataset>> MakeDataset(
        fcp::TestSelector sel) override {
      seen.push_back(sel.SerializeAsString());
      return absl::UnavailableError("reached");
    }
  };
  auto p = std::make_shared<P>();
  auto reg = fcp::ExternalDatasetProviderRegistry::Register(p);
  fcp::TestSelector sel;
  sel.mutable_lower_inclusive()->set_value(s.edgy(31));
  if (s.flip()) sel.mutable_upper_inclusive()->set_value(s.edgy());
  std::string bytes = sel.SerializeAsString();
  bool broken = s.chance(1, 3);
  std::string in = bytes;
  if (broken) in += std::string("\x0a\x7f", 2);
  c.log << "selector " << pbt::Hex(in);
  auto r = Run("ExternalDataset", {{Str(Bytes(reg.token()))}, {Str(in)}});
  if (broken) {
    PBT_CHECK(absl::IsInvalidArgument(r->status), r->status.ToString());
    PBT_CHECK(p->seen.empty(), "provider reached with a broken selector");
  } else {
    PBT_CHECK(r->status == absl::UnavailableError("reached"), r->status.ToString());
    PBT_EQ(pbt::Hex(p->seen.at(0)), pbt::Hex(bytes), "selector");
    c.nontrivial();
  }
}

void Callbacks(Src& s, Case& c) {
  struct Seen {
    std::string token;
    std::vector<tf::Tensor> vals;
    int32_t max_key;
    std::string init;
    std::vector<std::string> names;
    std::string key, file, target;
  };
  struct Callback {
    std::vector<Seen> seen;
    std::string reply;
    std::optional<fcp::HostObjectRegistration> reg;
    std::string token;
  };
  std::vector<std::unique_ptr<Callback>> cbs;
  int steps = s.range(2, 10);
  for (int i = 0; i < steps; ++i) {
    int op = s.weighted({2, 1, 5});
    if (op == 0 || cbs.empty()) {
      auto cb = std::make_unique<Callback>();
      Callback* p = cb.get();
      p->reply = absl::StrCat("id", cbs.size(), s.bytes(3));
      p->reg.emplace(fcp::register_serve_slices_callback(
          [p](fcp::RandomToken token, std::vector<tf::Tensor> vals, int32_t max_key,
              std::string init, std::vector<std::string> names, absl::string_view key,
              absl::string_view file, absl::string_view target) {
            p->seen.push_back({Bytes(token), vals, max_key, init, names,
                               std::string(key), std::string(file),
                               std::string(target)});
            return p->reply;
          }));
      p->token = Bytes(p->reg->token());
      c.log << "register " << cbs.size() << "; ";
      cbs.push_back(std::move(cb));
      continue;
    }
    size_t k = s.draw(cbs.size());
    Callback& cb = *cbs[k];
    if (op == 1) {
      cb.reg.reset();
      c.log << "unregister " << k << "; ";
      continue;
    }
    Seen want;
    want.token = cb.token;
    int bad = s.chance(1, 6) ? 1 + s.draw(3) : 0;
    if (bad == 1) want.token.pop_back();
    if (bad == 2) want.token += 'x';
    if (bad == 3) want.token[s.draw(want.token.size())] ^= 1 << s.draw(8);
    int n = s.small(0, 3);
    std::vector<tf::Tensor> name_tensors;
    for (int j = 0; j < n; ++j) {
      want.vals.push_back(s.flip() ? Scalar<int32_t>(s.range(-5, 5)) : Str(s.bytes(4)));
      want.names.push_back(s.ident() + std::to_string(j));
      name_tensors.push_back(Str(want.names.back()));
    }
    want.max_key = static_cast<int32_t>(s.edgy(32));
    want.init = s.bytes(4);
    want.key = "k" + s.bytes(4);
    want.file = "f" + s.bytes(4);
    want.target = "t" + s.bytes(4);
    auto r = Run("ServeSlices",
                 {{Str(want.token)}, want.vals, {Scalar<int32_t>(want.max_key)},
                  {Str(want.init)}, name_tensors, {Str(want.key)}, {Str(want.file)},
                  {Str(want.target)}});
    c.log << "serve " << k << " bad " << bad << " -> "
          << r->status.ToString().substr(0, 40) << "; ";
    if (bad || !cb.reg) {
      PBT_CHECK(absl::IsInvalidArgument(r->status), r->status.ToString());
      PBT_CHECK(cb.seen.empty(), "callback reached");
      c.label("refused");
    } else {
      PBT_CHECK(r->status.ok(), r->status.ToString());
      PBT_EQ(cb.seen.size(), 1u, "calls");
      const Seen& got = cb.seen[0];
      PBT_EQ(pbt::Hex(got.token), pbt::Hex(want.token), "token");
      PBT_EQ(got.max_key, want.max_key, "largest key");
      PBT_EQ(pbt::Hex(got.init), pbt::Hex(want.init), "initialize op");
      PBT_EQ(pbt::Hex(got.key), pbt::Hex(want.key), "key name");
      PBT_EQ(pbt::Hex(got.file), pbt::Hex(want.file), "file name tensor");
      PBT_EQ(pbt::Hex(got.target), pbt::Hex(want.target), "target");
      PBT_CHECK(got.names == want.names, "input names differ");
      PBT_EQ(got.vals.size(), want.vals.size(), "values");
      for (size_t j = 0; j < got.vals.size(); ++j)
        PBT_CHECK(got.vals[j].SharesBufferWith(want.vals[j]), "value " << j << " differs");
      PBT_EQ(pbt::Hex(OutStr(r.get())), pbt::Hex(cb.reply), "id");
      c.nontrivial();
    }
    for (auto& x : cbs) {
      if (x.get() != &cb) PBT_CHECK(x->seen.empty(), "another callback was called");
      x->seen.clear();
    }
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "F03",
      "an element, selector or call that reached its provider through the op",
      {{"datasets", Datasets, 30000, 1000000},
       {"shared", Shared, 2000, 50000},
       {"proto_selector", ProtoSelector, 3000, 50000},
       {"callbacks", Callbacks, 20000, 500000}});
}
