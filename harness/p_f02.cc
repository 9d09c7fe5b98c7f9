// LIBS: fcp_tfops
// F02: the small custom ops return exactly what their inputs determine, refuse
// inputs they cannot use, and touch nothing but what they were asked to.
#include "fcp/client/federated_select.h"
#include "fcp/dictionary/dictionary.pb.h"
#include "fcp/protos/federated_api.pb.h"
#include "fcp/protos/plan.pb.h"
#include "tfops.h"

using pbt::Case;
using pbt::Src;
using namespace tfops;
using google::internal::federated::plan::ExampleSelector;
using google::internal::federated::plan::SlicesSelector;
using google::internal::federatedml::v2::TaskEligibilityInfo;

namespace {

std::string Utf8(Src& s, int max) {
  static const std::vector<std::string> pieces = {
      "a", "type.googleapis.com/", "b", std::string(1, '\0'), "\xc3\xa9", "/", " "};
  std::string out;
  int n = s.small(0, max);
  for (int i = 0; i < n; ++i) out += s.pick(pieces);
  return out;
}
template <typename M>
M Parse(const std::string& bytes) {
  M m;
  PBT_CHECK(m.ParseFromString(bytes), "the result does not parse");
  return m;
}
// A tensor with other than one element, or more dimensions than a scalar.
tf::Tensor NotScalar(Src& s, const std::string& v) {
  return s.flip() ? StrVec({}) : StrVec({v, "x"});
}

void Fuser(Src& s, Case& c) {
  ExampleSelector sel;
  if (s.chance(3, 4)) sel.set_collection_uri(Utf8(s, 4));
  if (s.flip()) {
    sel.mutable_criteria()->set_type_url(Utf8(s, 3));
    sel.mutable_criteria()->set_value(s.bytes(12));
  }
  if (s.chance(1, 3)) {
    sel.mutable_resumption_token()->set_type_url("old");
    sel.mutable_resumption_token()->set_value(s.bytes(6));
  }
  std::string in = sel.SerializeAsString();
  bool broken = s.chance(1, 6);
  if (broken) {
    // A length that goes past the end.
    in += std::string("\x0a\x7f", 2) + s.bytes(4);
  }
  std::string url = Utf8(s, 4);
  // Contents are serialized messages, so any bytes.
  std::string content = s.bytes(16);
  c.log << "selector " << pbt::Hex(in) << " url " << pbt::Quote(url) << " content "
        << pbt::Hex(content);
  std::vector<tf::Tensor> args = {Str(in), Str(url), Str(content)};
  int bad = s.chance(1, 10) ? s.draw(3) : -1;
  if (bad >= 0) args[bad] = NotScalar(s, "y");
  auto r = Run("ExampleSelectorFuser", {{args[0]}, {args[1]}, {args[2]}});
  c.log << " -> " << r->status.ToString();
  if (bad >= 0 || broken) {
    PBT_CHECK(absl::IsInvalidArgument(r->status), "accepted: " << r->status.ToString());
    c.label("refused");
    return;
  }
  PBT_CHECK(r->status.ok(), r->status.ToString());
  ExampleSelector want = sel;
  want.mutable_resumption_token()->set_type_url(url);
  want.mutable_resumption_token()->set_value(content);
  ExampleSelector got = Parse<ExampleSelector>(OutStr(r.get()));
  PBT_CHECK(got.SerializeAsString() == want.SerializeAsString(),
            "fused selector is " << got.ShortDebugString() << " but expected "
                                 << want.ShortDebugString());
  c.label("fused");
  c.nontrivial(!content.empty());
}

void SlicesSelectors(Src& s, Case& c) {
  std::string id = Utf8(s, 4);
  std::vector<int32_t> keys;
  int n = s.small(0, 12);
  for (int i = 0; i < n; ++i) keys.push_back(static_cast<int32_t>(s.edgy(32)));
  c.log << "id " << pbt::Quote(id) << " keys";
  for (int32_t k : keys) c.log << " " << k;
  auto r = Run("MakeSlicesSelectorExampleSelector", {{Str(id)}, {Vec(keys)}});
  PBT_CHECK(r->status.ok(), r->status.ToString());
  auto sel = Parse<ExampleSelector>(OutStr(r.get()));
  PBT_EQ(sel.collection_uri(), std::string("internal:/federated_select"),
         "collection");
  PBT_CHECK(!sel.has_resumption_token(), "unexpected resumption token");
  SlicesSelector got;
  PBT_CHECK(sel.criteria().UnpackTo(&got), "criteria of another type");
  PBT_EQ(got.served_at_id(), id, "served at");
  PBT_CHECK(std::vector<int32_t>(got.keys().begin(), got.keys().end()) == keys,
            "keys differ: " << got.ShortDebugString());
  c.nontrivial(!keys.empty());
}

void Eligibility(Src& s, Case& c) {
  int64_t version = s.edgy(31);
  std::vector<std::string> names;
  std::vector<float> weights;
  int n = s.small(0, 6);
  for (int i = 0; i < n; ++i) {
    names.push_back(Utf8(s, 3));
    weights.push_back(s.of<float>({0.f, 1.f, 0.5f, -1.f, 3e38f, 1e-40f, 7.25f}));
  }
  std::vector<std::string> passed = names;
  int bad = s.chance(1, 5) ? 1 + s.draw(4) : 0;
  if (bad == 1) passed.push_back("extra");
  if (bad == 2) weights.push_back(1.f);
  tf::Tensor v = Scalar<int64_t>(version), t = StrVec(passed), w = Vec(weights);
  if (bad == 3) v = Vec(std::vector<int64_t>{version, 1});
  if (bad == 4) t = Str("one");
  c.log << "version " << version << " names " << passed.size() << " weights "
        << weights.size() << " bad " << bad;
  auto r = Run("CreateTaskEligibilityInfo", {{v}, {t}, {w}});
  if (bad) {
    PBT_CHECK(absl::IsInvalidArgument(r->status), "accepted: " << r->status.ToString());
    c.label("refused");
    return;
  }
  PBT_CHECK(r->status.ok(), r->status.ToString());
  auto got = Parse<TaskEligibilityInfo>(OutStr(r.get()));
  PBT_EQ(static_cast<int64_t>(got.version()), version, "version");
  PBT_EQ(got.task_weights_size(), n, "tasks");
  for (int i = 0; i < n; ++i) {
    PBT_EQ(got.task_weights(i).task_name(), names[i], "name");
    PBT_EQ(got.task_weights(i).weight(), weights[i], "weight");
  }
  c.nontrivial(n >= 2);
}

void Dictionaries(Src& s, Case& c) {
  fcp::dictionary::DictionaryDescription d;
  std::vector<std::string> tokens;
  std::set<std::string> seen;
  int n = s.small(0, 8);
  for (int i = 0; i < n; ++i) {
    std::string t = s.bytes(3);
    if (!t.empty() && seen.insert(t).second) tokens.push_back(t);
  }
  bool with_vocabulary = !s.chance(1, 12);
  if (with_vocabulary) {
    auto* v = d.mutable_vocabulary()->mutable_index();
    for (const auto& t : tokens) v->add_token(t);
  }
  // Special ids come before the tokens, in order.
  auto* ids = d.mutable_special_ids();
  int64_t next = 0;
  int64_t unk = -1;
  switch (s.draw(5)) {
    case 1: ids->set_unk(unk = next++); break;
    case 2: ids->set_bos(next++); ids->set_unk(unk = next++); break;
    case 3:
      ids->set_unk(unk = next++);
      ids->set_bos(next++);
      ids->set_eos(next++);
      break;
    case 4: ids->set_bos(next++); break;
  }
  int64_t first = next;
  std::string desc = d.SerializeAsString();
  c.log << tokens.size() << " tokens from id " << first << " unk " << unk;
  if (s.chance(1, 12)) {
    auto k = Make("DictionarySize",
                  {{"dictionary_description_proto", desc + std::string("\x0a\x7f", 2)}});
    PBT_CHECK(absl::IsInvalidArgument(k->status),
              "a broken description was accepted: " << k->status.ToString());
    c.label("refused");
    return;
  }
  std::map<std::string, std::string> attrs = {{"dictionary_description_proto", desc}};
  auto size = Run("DictionarySize", {}, attrs);
  if (!with_vocabulary) {
    PBT_CHECK(absl::IsInvalidArgument(size->status),
              "no vocabulary: " << size->status.ToString());
    c.label("refused");
    return;
  }
  PBT_CHECK(size->status.ok(), size->status.ToString());
  PBT_EQ(size->ctx.outputs[0]->flat<int64_t>()(0),
         static_cast<int64_t>(first + tokens.size()), "size");
  // Lookup keeps the shape and maps each element on its own.
  int64_t rows = s.range(0, 3), cols = s.range(1, 3);
  std::vector<int64_t> shape = s.of<std::vector<int64_t>>({{}, {1}, {1}, {1, 1}});
  if (!shape.empty()) shape[0] = rows;
  if (shape.size() == 2) shape[1] = cols;
  tf::Tensor in(tf::DT_STRING, tf::TensorShape(shape));
  std::vector<int64_t> want;
  for (auto& v : in.flat<tf::tstring>()) {
    std::string t = !tokens.empty() && s.chance(2, 3) ? s.pick(tokens) : s.bytes(3);
    v = t;
    auto it = std::find(tokens.begin(), tokens.end(), t);
    want.push_back(it != tokens.end() ? first + (it - tokens.begin()) : unk);
  }
  auto look = Run("DictionaryLookup", {{in}}, attrs);
  PBT_CHECK(look->status.ok(), look->status.ToString());
  const tf::Tensor& out = *look->ctx.outputs[0];
  PBT_CHECK(out.shape() == in.shape(), "shape " << out.shape().DebugString()
                                                << " but expected "
                                                << in.shape().DebugString());
  for (size_t i = 0; i < want.size(); ++i)
    PBT_EQ(out.flat<int64_t>()(i), want[i],
           "id of " << pbt::Quote(in.flat<tf::tstring>()(i)));
  // And back.
  tf::Tensor back_in(tf::DT_INT64, tf::TensorShape(shape));
  std::vector<std::string> back;
  for (auto& v : back_in.flat<int64_t>()) {
    v = s.chance(1, 5) ? static_cast<int64_t>(s.edgy())
                       : s.range(-1, first + tokens.size());
    bool known = v >= first && v < first + static_cast<int64_t>(tokens.size());
    back.push_back(known ? tokens[v - first] : "");
  }
  auto rev = Run("DictionaryReverseLookup", {{back_in}}, attrs);
  PBT_CHECK(rev->status.ok(), rev->status.ToString());
  PBT_CHECK(rev->ctx.outputs[0]->shape() == back_in.shape(), "shape changed");
  for (size_t i = 0; i < back.size(); ++i)
    PBT_EQ(std::string(rev->ctx.outputs[0]->flat<tf::tstring>()(i)), back[i],
           "token of " << back_in.flat<int64_t>()(i));
  c.nontrivial(tokens.size() >= 2 && !want.empty());
}

// Bit by bit, to be independent of the code under test and its library.
uint32_t Crc32c(const std::string& b) {
  uint32_t crc = 0xffffffffu;
  for (unsigned char ch : b)
    for (int k = 0; k < 8; ++k) {
      uint32_t bit = (crc ^ (ch >> k)) & 1;
      crc >>= 1;
      if (bit) crc ^= 0x82f63b78u;
    }
  return ~crc;
}
void Checksum(Src& s, Case& c) {
  tf::DataType type = s.of<tf::DataType>(
      {tf::DT_INT32, tf::DT_FLOAT, tf::DT_UINT8, tf::DT_INT64, tf::DT_DOUBLE});
  std::vector<int64_t> shape;
  int dims = s.draw(4);
  for (int i = 0; i < dims; ++i) shape.push_back(s.range(0, 4));
  tf::Tensor t(type, tf::TensorShape(shape));
  std::string b = s.fixed_bytes(t.tensor_data().size());
  std::memcpy(const_cast<char*>(t.tensor_data().data()), b.data(), b.size());
  c.log << tf::DataType_Name(type) << " " << pbt::Hex(b);
  auto r = Run("CRC32", {{t}});
  PBT_CHECK(r->status.ok(), r->status.ToString());
  PBT_EQ(r->ctx.outputs[0]->scalar<uint32_t>()(), Crc32c(b), "checksum");
  c.nontrivial(b.size() > 8);
}

void Names(Src& s, Case& c) {
  std::vector<std::string> inputs;
  int n = s.small(0, 3);
  for (int i = 0; i < n; ++i)
    inputs.push_back((i ? "^" : "") + s.str(6, "ab/_:0"));
  auto r = Run("TensorName", {{Scalar<float>(1.f)}}, {}, inputs);
  for (const auto& i : inputs) c.log << i << " ";
  if (inputs.empty()) {
    PBT_CHECK(absl::IsInvalidArgument(r->status), r->status.ToString());
    return;
  }
  PBT_CHECK(r->status.ok(), r->status.ToString());
  PBT_EQ(OutStr(r.get()), inputs[0], "name");
  c.nontrivial(n > 1);
}

// The file system is in memory only.
void Deletes(Src& s, Case& c) {
  tf::Env* env = ResetEnv();
  const std::vector<std::string> paths = {"/d", "/d/a", "/d/ab", "/d/a/x", "/d/a/y",
                                          "/e", "/e/a", "f"};
  for (const auto& p : paths) {
    switch (s.draw(3)) {
      case 1: env->dirs.insert(p); break;
      case 2: env->files[p] = std::make_shared<std::string>("v"); break;
    }
  }
  // Parents are directories.
  for (const auto& p : paths) {
    bool there = env->files.count(p) || env->dirs.count(p);
    size_t at = p.rfind('/');
    for (; there && at != std::string::npos && at > 0; at = p.rfind('/', at - 1)) {
      env->files.erase(p.substr(0, at));
      env->dirs.insert(p.substr(0, at));
    }
  }
  int steps = s.range(1, 3);
  for (int i = 0; i < steps; ++i) {
    std::map<std::string, int> before;  // 1 file, 2 directory
    for (const auto& f : env->files) before[f.first] = 1;
    for (const auto& d : env->dirs) before[d] = 2;
    std::string p = s.pick(paths);
    int op = s.draw(3);
    env->faults = tf::verif::Faults();
    bool fault = s.chance(1, 6);
    if (fault) env->faults.fail[s.of<std::string>({"delete", "exists", "isdir"})].insert(1);
    absl::Status st;
    bool bad = s.chance(1, 8);
    tf::Tensor arg = bad ? NotScalar(s, p) : Str(p);
    if (op == 0)
      st = Run("DeleteFile", {{arg}})->status;
    else
      st = Run("DeleteDir", {{arg}, {Scalar<bool>(op == 2)}})->status;
    bool failed = env->faults.any_failed;
    env->faults = tf::verif::Faults();
    c.log << (op == 0 ? "file " : op == 1 ? "dir " : "tree ") << p
          << (failed ? " with fault" : "") << (bad ? " bad" : "") << " -> "
          << st.ToString() << "; ";
    std::map<std::string, int> want = before, got;
    if (bad) {
      PBT_CHECK(absl::IsInvalidArgument(st), "accepted: " << st.ToString());
    } else {
      PBT_CHECK(st.ok(), "failed: " << st.ToString());
      bool empty = true;
      for (const auto& x : before)
        if (x.first.compare(0, p.size() + 1, p + "/") == 0) empty = false;
      auto it = before.find(p);
      if (!failed && it != before.end()) {
        if (op == 0 && it->second == 1) want.erase(p);
        if (op == 1 && it->second == 2 && empty) want.erase(p);
        if (op == 2 && it->second == 2) {
          for (const auto& x : before)
            if (x.first == p || x.first.compare(0, p.size() + 1, p + "/") == 0)
              want.erase(x.first);
        }
      }
    }
    for (const auto& f : env->files) got[f.first] = 1;
    for (const auto& d : env->dirs) got[d] = 2;
    PBT_CHECK(got == want, "wrong things deleted: " << got.size() << " left of "
                                                    << before.size()
                                                    << ", expected " << want.size());
    c.nontrivial(want.size() < before.size());
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "F02",
      "an accepted call with something to compute: a token with content, keys, "
      "two or more tasks or tokens, more than eight bytes, or something deleted",
      {{"fuser", Fuser, 30000, 1000000},
       {"slices_selector", SlicesSelectors, 20000, 500000},
       {"eligibility", Eligibility, 20000, 500000},
       {"dictionary", Dictionaries, 30000, 1000000},
       {"checksum", Checksum, 20000, 500000},
       {"name", Names, 5000, 50000},
       {"delete", Deletes, 20000, 500000}});
}
