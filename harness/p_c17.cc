// LIBS: fcp_client fcp_secagg_client fcp_secagg_server fcp_secagg_shared fcp_tracing fcp_base pbt
// C17: the client side of secure aggregation over HTTP, against the real
// aggregation server and other real clients.
#include <atomic>
#include <map>
#include <set>
#include <string>

#include "client_fakes.h"
#include "event_recorder.h"
#include "fake_http.h"
#include "fc_server.h"
#include "fcp/client/http/http_secagg_send_to_server_impl.h"
#include "fcp/client/http/protocol_request_helper.h"
#include "fcp/client/secagg_runner.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "pbt/pbt.h"
#include "runner_box.h"
#include "secagg_world.h"

using namespace fcp::client;  // NOLINT
namespace ch = fcp::client::http;
namespace sa = fcp::secagg;
using fakes::Code;
using fakes::Fault;
using fakes::Forward;
using fakes::Operation;
using fakes::Reply;
using fakes::Seen;
namespace fc = fakes::fc;
using pbt::Case;
using pbt::Src;

namespace {

std::string Unescape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      o += char(std::stoi(s.substr(i + 1, 2), nullptr, 16));
      i += 2;
    } else {
      o += s[i];
    }
  }
  return o;
}

struct Tensor {
  std::vector<uint64_t> values;
  std::vector<int64_t> dims;
  uint64_t modulus = 0;
};

std::map<std::string, Tensor> DrawTensors(Src& s) {
  std::map<std::string, Tensor> out;
  int n = s.small(1, 4);
  for (int i = 0; i < n; ++i) {
    std::string name = s.flip() ? "v" + std::to_string(i) : s.str(6, "ab/ %:_") + std::to_string(i);
    Tensor& t = out[name];
    t.modulus = sim::GenModulus(s);
    int64_t len = 1;
    if (s.chance(1, 20)) {
      t.dims = {int64_t(s.urange(100, 400))};
      len = t.dims[0];
    } else {
      int r = s.weighted({1, 4, 2, 1});
      for (int k = 0; k < r; ++k) {
        t.dims.push_back(s.urange(1, 4));
        len *= t.dims.back();
      }
    }
    bool top = s.chance(1, 4);
    for (int64_t k = 0; k < len; ++k) t.values.push_back(top ? t.modulus - 1 : s.urange(0, t.modulus - 1));
  }
  return out;
}

// A fault in one of the exchanges.
struct Plan {
  enum Kind { kNone, kFault, kOpError, kWrongType, kBadContent, kBeforeStart };
  Kind kind = kNone;
  std::string at;  // the request
  int poll = 0;    // for "poll ...", which one
  Fault fault;
  int op_error = 0;
  bool outer_first = true;
};

struct Exchange {
  Src& s;
  Case& c;
  Plan plan;
  std::map<std::string, Tensor> tensors;
  std::unique_ptr<sim::World> world;
  fakes::Http http;
  fakes::Events events;
  fakes::Log log;
  fakes::StepClock clock{absl::FromUnixSeconds(5000)};
  Forward secagg, masked, nonmasked;
  std::string api_key, aggregation, token, masked_name, nonmasked_name;
  std::optional<std::string> checkpoint;
  bool compress;
  std::map<std::string, int> polls;
  absl::Duration patience;

  std::string problem;
  std::vector<std::string> seen;
  int aborts = 0;
  std::string masked_body, nonmasked_body;
  std::vector<absl::Time> deadlines;
  std::atomic<bool> raise{false}, outer_saw{false}, inner_saw{false};

  Exchange(Src& s, Case& c) : s(s), c(c) {}

  void Bad(const std::string& what) {
    if (problem.empty()) problem = what;
  }

  void Setup() {
    std::vector<sim::InputVectorSpecification> specs;
    for (auto& [name, t] : tensors) specs.emplace_back(name, t.values.size(), t.modulus);
    world = std::make_unique<sim::World>(s, specs);
    secagg = fakes::DrawForward(s, "agg");
    masked = fakes::DrawForward(s, "masked");
    nonmasked = fakes::DrawForward(s, "plain");
    api_key = s.ident(4);
    aggregation = s.flip() ? s.ident(4) : s.str(5, "a/ %?b") + "i";
    token = s.flip() ? s.ident(4) : s.str(5, "a/ %?b") + "t";
    masked_name = "m" + s.str(4, "a/ %");
    nonmasked_name = "n" + s.str(4, "a/ %");
    if (s.flip()) checkpoint = s.bytes(20);
    compress = s.flip();
    for (auto k : {"advertisekeys", "sharekeys", "submit"}) polls[k] = s.weighted({3, 1}) == 0 ? 0 : s.urange(1, 3);
    patience = absl::Seconds(s.urange(1, 60));
    http.read_size = [] { return 4096; };
    http.handler = [this](const Seen& q) { return Handle(q); };
    http.on_hang = [this] { raise = true; };
  }

  bool Below(const Seen& q, const Forward& f, std::string* rest, std::string* params) {
    std::string base = f.base.back() == '/' ? f.base.substr(0, f.base.size() - 1) : f.base;
    if (q.uri.compare(0, base.size() + 1, base + "/") != 0) return false;
    *rest = q.uri.substr(base.size());
    auto p = rest->find('?');
    *params = p == std::string::npos ? "" : rest->substr(p + 1);
    *rest = rest->substr(0, p);
    for (auto& h : f.headers) {
      if (q.Count(h.first) != 1 || q.Header(h.first) != h.second) Bad("forwarded header " + h.first + " in " + q.uri);
    }
    if (q.Header("x-goog-api-key") != api_key) Bad("api key in " + q.uri);
    return true;
  }

  // Records the request and applies the fault meant for it.
  bool Faulty(const std::string& kind, Reply* r) {
    seen.push_back(kind);
    if (plan.kind != Plan::kFault || plan.at != kind) return false;
    if (kind.compare(0, 5, "poll ") == 0 && plan.poll-- > 0) return false;
    const Fault& f = plan.fault;
    switch (f.kind) {
      case Fault::kHttp:
        r->code = f.http;
        r->body = "no";
        return true;
      case Fault::kLost:
        r->fail = Reply::kBeforeHeaders;
        r->error = absl::Status(f.lost, "lost");
        return true;
      case Fault::kInterrupt: r->fail = Reply::kHang; return true;
      case Fault::kGarbage: r->body = std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7); return true;
      default: return false;
    }
  }

  struct Op {
    std::string kind;
    int left;
    Operation done;
  };
  std::map<std::string, Op> ops;

  Reply Start(const std::string& kind, const google::protobuf::Message& response) {
    Operation op;
    std::string name = "operations/" + kind + "/x y";
    op.set_name(name);
    op.set_done(true);
    if (plan.kind == Plan::kOpError && plan.at == kind) {
      op.mutable_error()->set_code(plan.op_error);
      op.mutable_error()->set_message("ended");
    } else if (plan.kind == Plan::kWrongType && plan.at == kind) {
      op.mutable_response()->PackFrom(fc::UnmaskResponse());
    } else {
      op.mutable_response()->PackFrom(response);
    }
    ops[name] = {kind, polls[kind], op};
    Reply r;
    r.body = StepOp(name);
    return r;
  }
  std::string StepOp(const std::string& name) {
    Op& o = ops[name];
    if (o.left-- <= 0) return o.done.SerializeAsString();
    Operation p;
    p.set_name(name);
    return p.SerializeAsString();
  }

  Reply Handle(const Seen& q) {
    Reply r;
    std::string rest, params, body = q.body;
    if (Below(q, masked, &rest, &params) || Below(q, nonmasked, &rest, &params)) {
      bool plain = !Below(q, masked, &rest, &params);
      if (plain) Below(q, nonmasked, &rest, &params);
      std::string kind = plain ? "upload plain" : "upload masked";
      if (Unescape(rest) != "/upload/v1/media/" + (plain ? nonmasked_name : masked_name)) Bad("upload to " + q.uri);
      if (params != "upload_protocol=raw" || q.method != fakes::Method::kPost) Bad("parameters of the upload");
      if (q.Count("Content-Encoding")) Bad("compressed upload");
      (plain ? nonmasked_body : masked_body) = body;
      Faulty(kind, &r);
      return r;
    }
    if (!Below(q, secagg, &rest, &params)) {
      Bad("request to " + q.uri);
      return r;
    }
    if (params != "%24alt=proto") Bad("parameters of " + q.uri);
    if (q.Header("Content-Encoding") == "gzip") {
      auto u = fcp::UncompressWithGzip(body);
      if (!u.ok()) {
        Bad("body does not decompress");
      } else {
        body = std::string(*u);
      }
      if (!compress) Bad("compressed although switched off");
    }
    rest = Unescape(rest);
    if (rest.compare(0, 15, "/v1/operations/") == 0) {
      std::string name = rest.substr(4);
      if (absl::EndsWith(name, ":cancel")) {
        seen.push_back("cancel");
        return r;
      }
      auto it = ops.find(name);
      if (it == ops.end()) {
        Bad("unknown operation " + name);
        return r;
      }
      if (Faulty("poll " + it->second.kind, &r)) return r;
      r.body = StepOp(name);
      return r;
    }
    std::string pre = "/v1/secureaggregations/" + aggregation + "/clients/" + token + ":";
    if (rest.compare(0, pre.size(), pre) != 0 || q.method != fakes::Method::kPost) {
      Bad("request to " + rest);
      return r;
    }
    std::string verb = rest.substr(pre.size());
    if (Faulty(verb, &r)) return r;
    bool spoil = plan.kind == Plan::kBadContent && plan.at == verb;
    sa::ClientToServerWrapperMessage m;
    bool parsed = true;
    if (verb == "advertisekeys") {
      fc::AdvertiseKeysRequest req;
      parsed = req.ParseFromString(body);
      *m.mutable_advertise_keys() = req.advertise_keys();
      auto a = parsed ? world->Next(m) : std::nullopt;
      fc::AdvertiseKeysResponse resp;
      if (a && a->has_share_keys_request()) {
        *resp.mutable_share_keys_server_request() = a->share_keys_request();
      } else {
        Bad("no keys to share: " + world->problem);
      }
      if (spoil) resp.mutable_share_keys_server_request()->clear_pairs_of_public_keys();
      r = Start(verb, resp);
    } else if (verb == "sharekeys") {
      fc::ShareKeysRequest req;
      parsed = req.ParseFromString(body);
      *m.mutable_share_keys_response() = req.share_keys_client_response();
      auto a = parsed ? world->Next(m) : std::nullopt;
      fc::ShareKeysResponse resp;
      if (a && a->has_masked_input_request()) {
        *resp.mutable_masked_input_collection_server_request() = a->masked_input_request();
      } else {
        Bad("no request for masked input: " + world->problem);
      }
      if (spoil) resp.mutable_masked_input_collection_server_request()->clear_encrypted_key_shares();
      r = Start(verb, resp);
    } else if (verb == "submit") {
      fc::SubmitSecureAggregationResultRequest req;
      parsed = req.ParseFromString(body);
      if (req.masked_result_resource_name() != masked_name) Bad("name of the masked result");
      if (req.nonmasked_result_resource_name() != (checkpoint ? nonmasked_name : "")) Bad("name of the plain result");
      if (checkpoint && nonmasked_body != *checkpoint) Bad("the plain result differs");
      if (!m.mutable_masked_input_response()->ParseFromString(masked_body)) Bad("masked result");
      auto a = world->Next(m);
      fc::SubmitSecureAggregationResultResponse resp;
      if (a && a->has_unmasking_request()) {
        *resp.mutable_unmasking_server_request() = a->unmasking_request();
      } else {
        Bad("no request for unmasking: " + world->problem);
      }
      if (spoil) {
        for (int i = 1; i <= world->n; ++i) resp.mutable_unmasking_server_request()->add_dead_3_client_ids(i);
      }
      r = Start(verb, resp);
    } else if (verb == "unmask") {
      fc::UnmaskRequest req;
      parsed = req.ParseFromString(body);
      *m.mutable_unmasking_response() = req.unmasking_client_response();
      world->Next(m);
      if (!world->problem.empty()) Bad("unmasking: " + world->problem);
    } else if (verb == "abort") {
      fc::AbortSecureAggregationRequest req;
      parsed = req.ParseFromString(body);
      aborts++;
      if (req.status().code() == 0) Bad("abort with an OK status");
      if (s_abort_fault) {
        r.code = 500;
        r.body = "no";
      }
    } else {
      Bad("unknown request " + verb);
    }
    if (!parsed) Bad("body of " + verb);
    return r;
  }
  bool s_abort_fault = false;

  absl::Status Run(ComputationResults results, const std::map<std::string, uint64_t>& moduli) {
    auto watch = fcp::WallClockStopwatch::Create();
    int64_t up = 0, down = 0;
    ch::ProtocolRequestHelper helper(&http, &down, &up, watch.get(), &clock);
    InterruptibleRunner inner(
        &log,
        [this] {
          bool b = raise && (!plan.outer_first || outer_saw);
          if (b) inner_saw = true;
          return b;
        },
        fakes::PatientTiming(), fakes::HttpDiag());
    InterruptibleRunner outer(
        &log,
        [this] {
          bool b = raise && (plan.outer_first || inner_saw);
          if (b) outer_saw = true;
          return b;
        },
        fakes::PatientTiming(), fakes::HttpDiag());
    fc::ForwardingInfo f;
    secagg.Fill(&f);
    fc::ByteStreamResource m, p;
    masked.Fill(m.mutable_data_upload_forwarding_info());
    m.set_resource_name(masked_name);
    nonmasked.Fill(p.mutable_data_upload_forwarding_info());
    p.set_resource_name(nonmasked_name);
    absl::StatusOr<sa::ServerToClientWrapperMessage> holder;
    absl::Time start = clock.now;
    auto send = ch::HttpSecAggSendToServerImpl::Create(
        api_key, &clock, &helper, &inner,
        [&](absl::Time deadline) {
          deadlines.push_back(deadline);
          return std::make_unique<InterruptibleRunner>(
              &log, [] { return false; }, fakes::PatientTiming(), fakes::HttpDiag());
        },
        &holder, aggregation, token, f, m, p, checkpoint, !compress, patience);
    PBT_CHECK(send.ok(), "sender refused: " << send.status());
    google::protobuf::Map<std::string, fc::SecureAggregandExecutionInfo> aggregands;
    for (auto& [k, v] : moduli) aggregands[k].set_modulus(v);
    auto delegate = std::make_unique<ch::HttpSecAggProtocolDelegate>(aggregands, &holder);
    SecAggRunnerFactoryImpl factory;
    auto runner = static_cast<SecAggRunnerFactory&>(factory).CreateSecAggRunner(
        std::move(*send), std::move(delegate), events.secagg_event_publisher(), &log, &outer,
        world->neighbours(), world->threshold());
    absl::Status st = runner->Run(std::move(results));
    PBT_CHECK(http.misuse.empty(), "HTTP client misused: " << http.misuse);
    for (auto d : deadlines) {
      PBT_CHECK(d >= start + patience, "the abort was given less time than configured");
    }
    return st;
  }
};

ComputationResults ToResults(const std::map<std::string, Tensor>& tensors) {
  ComputationResults r;
  for (auto& [name, t] : tensors) {
    QuantizedTensor q;
    q.values = t.values;
    q.dimensions = t.dims;
    q.bitwidth = 8;
    r.emplace(name, std::move(q));
  }
  return r;
}

std::map<std::string, uint64_t> Moduli(const std::map<std::string, Tensor>& tensors) {
  std::map<std::string, uint64_t> m;
  for (auto& [name, t] : tensors) m[name] = t.modulus;
  return m;
}

void Describe(Exchange& x) {
  x.c.log << "n=" << x.world->n << " min=" << x.world->min;
  for (auto& [name, t] : x.tensors) {
    x.c.log << " " << pbt::Quote(name) << "[";
    for (auto d : t.dims) x.c.log << d << ",";
    x.c.log << "]%" << t.modulus;
  }
  if (x.checkpoint) x.c.log << " +checkpoint";
  for (auto& [k, v] : x.polls) {
    if (v) x.c.log << " " << k << " polls " << v;
  }
}

void Protocol(Src& s, Case& c) {
  Exchange x(s, c);
  x.tensors = DrawTensors(s);
  x.Setup();
  Plan& p = x.plan;
  if (s.chance(2, 3)) {
    std::vector<std::string> ops = {"advertisekeys", "sharekeys", "submit"};
    switch (s.weighted({6, 2, 1, 2, 1})) {
      case 0: {
        p.kind = Plan::kFault;
        std::vector<std::string> where = {"advertisekeys", "sharekeys", "upload masked", "submit", "unmask"};
        if (x.checkpoint) where.push_back("upload plain");
        for (auto& [k, v] : x.polls) {
          if (v) where.push_back("poll " + k);
        }
        p.at = s.pick(where);
        if (p.at.compare(0, 5, "poll ") == 0) p.poll = s.draw(x.polls[p.at.substr(5)]);
        bool op = p.at != "unmask" && p.at.compare(0, 6, "upload") != 0;
        p.fault = fakes::DrawFault(s, true, op);
        break;
      }
      case 1:
        p.kind = Plan::kOpError;
        p.at = s.pick(ops);
        p.op_error = s.range(1, 16);
        break;
      case 2:
        p.kind = Plan::kWrongType;
        p.at = s.pick(ops);
        break;
      case 3:
        p.kind = Plan::kBadContent;
        p.at = s.pick(ops);
        break;
      default:
        p.kind = Plan::kBeforeStart;
        x.raise = true;
    }
    p.outer_first = p.kind == Plan::kBeforeStart || s.chance(3, 4);
  }
  x.s_abort_fault = s.chance(1, 4);
  Describe(x);
  ComputationResults results = ToResults(x.tensors);
  auto moduli = Moduli(x.tensors);
  if (s.flip()) moduli["unused"] = 17;
  if (s.chance(1, 4)) results.emplace("other", FCCheckpoint("not quantized"));
  int kind = p.kind;
  bool interrupt = p.kind == Plan::kFault && p.fault.kind == Fault::kInterrupt;
  if (p.kind) {
    c.log << " | fault " << kind << " at " << p.at << " kind " << int(p.fault.kind) << " " << p.fault.http
          << (interrupt ? p.outer_first ? " outer" : " inner" : "");
  }
  const Plan planned = p;
  auto polls = x.polls;
  absl::Status st = x.Run(std::move(results), moduli);
  c.log << " -> " << st << " after";
  for (auto& k : x.seen) c.log << " " << k;
  PBT_CHECK(x.problem.empty(), x.problem);
  PBT_CHECK(x.world->problem.empty(), x.world->problem);
  c.label(kind == Plan::kNone ? "clean" : kind == Plan::kFault ? interrupt ? "interrupted" : "transport fault"
          : kind == Plan::kBadContent ? "bad server message" : kind == Plan::kBeforeStart ? "before start" : "operation error");
  c.nontrivial(kind != Plan::kBeforeStart);

  // The requests up to the fault.
  std::vector<std::string> want;
  bool stop = kind == Plan::kBeforeStart;
  auto add = [&](const std::string& k, int nth = -1) {
    if (stop) return;
    want.push_back(k);
    if (kind == Plan::kFault && planned.at == k && (nth < 0 || nth == planned.poll)) stop = true;
  };
  auto op = [&](const std::string& k) {
    add(k);
    for (int i = 0; i < polls[k]; ++i) add("poll " + k, i);
    if (planned.at == k && kind != Plan::kFault) stop = true;
  };
  op("advertisekeys");
  op("sharekeys");
  // Both uploads are made in any case, as one batch.
  if (!stop) {
    bool after = kind == Plan::kFault && (planned.at == "upload masked" || (planned.at == "upload plain" && x.checkpoint));
    want.push_back("upload masked");
    if (x.checkpoint) want.push_back("upload plain");
    stop = after;
  }
  op("submit");
  add("unmask");
  std::vector<std::string> got = x.seen;
  while (!got.empty() && got.back() == "abort") got.pop_back();
  std::vector<std::string> got2;
  for (auto& k : got) {
    if (k != "cancel") got2.push_back(k);
  }
  std::string w, g;
  for (auto& k : want) w += k + " ";
  for (auto& k : got2) g += k + " ";
  PBT_EQ(g, w, "requests");
  PBT_CHECK(x.aborts <= 1, "several aborts");

  switch (kind) {
    case Plan::kNone: {
      PBT_CHECK(st.ok(), "a complete run failed: " << st);
      PBT_EQ(x.aborts, 0, "aborts");
      auto mine = x.world->Contribution();
      PBT_CHECK(mine.has_value(), "the aggregation has no result");
      for (auto& [name, t] : x.tensors) {
        PBT_CHECK((*mine)[name] == t.values, "the contribution under " << pbt::Quote(name) << " differs from the input");
      }
      PBT_EQ(x.events.secagg.client_aborts + x.events.secagg.server_aborts + x.events.secagg.errors, 0, "published failures");
      break;
    }
    case Plan::kFault: {
      if (planned.at == "unmask") {
        // The contribution is in; whether the loss of the last message counts
        // as a failure is left open.
        break;
      }
      PBT_CHECK(!st.ok(), "success although " << planned.at << " failed");
      auto code = fakes::CodeOf(planned.fault);
      if (code) PBT_EQ(int(st.code()), int(*code), "code of " + st.ToString());
      if (interrupt && planned.outer_first) {
        PBT_EQ(x.aborts, 1, "aborts sent on interruption");
        PBT_EQ(x.events.secagg.client_aborts, 1, "published client aborts");
      }
      break;
    }
    case Plan::kOpError: PBT_EQ(int(st.code()), planned.op_error, "code of " + st.ToString()); break;
    case Plan::kWrongType: PBT_CHECK(!st.ok(), "success although an answer was of the wrong type"); break;
    case Plan::kBadContent:
      PBT_CHECK(!st.ok(), "success although the server's message was bad");
      PBT_EQ(x.aborts, 1, "aborts sent on a bad message");
      break;
    case Plan::kBeforeStart:
      PBT_EQ(int(st.code()), int(Code::kCancelled), "code");
      PBT_EQ(x.aborts, 0, "aborts of a run that did not start");
      break;
  }
}

void Inputs(Src& s, Case& c) {
  Exchange x(s, c);
  x.tensors = DrawTensors(s);
  x.Setup();
  auto moduli = Moduli(x.tensors);
  auto bad = x.tensors;
  auto it = bad.begin();
  std::advance(it, s.draw(bad.size()));
  Tensor& t = it->second;
  size_t at = s.draw(t.values.size());
  int kind = s.draw(7);
  switch (kind) {
    case 0: moduli.erase(it->first); break;
    case 1: moduli[it->first] = s.draw(2); break;
    case 2: moduli[it->first] = (uint64_t(1) << 62) + s.urange(1, uint64_t(1) << 62); break;
    case 3:
      t.values.clear();
      if (s.flip()) t.dims = {0};
      break;
    case 4:
      if (s.flip()) {
        t.values.push_back(0);
      } else {
        t.dims.push_back(s.urange(2, 5));
      }
      break;
    case 5: t.values[at] = t.modulus + (s.flip() ? 0 : s.urange(0, uint64_t(1) << 40)); break;
    default: t.values[at] = ~uint64_t(0) - s.draw(3);
  }
  Describe(x);
  c.log << " | bad input " << kind << " in " << pbt::Quote(it->first);
  c.label("kind " + std::to_string(kind));
  c.nontrivial(true);
  absl::Status st = x.Run(ToResults(bad), moduli);
  PBT_CHECK(!st.ok(), "accepted");
  PBT_CHECK(x.seen.empty() && x.problem.empty(), "something was sent: " << (x.seen.empty() ? x.problem : x.seen[0]));
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C17",
                   "a run of the client's side of secure aggregation that sent at least one message, or was given an input to refuse",
                   {{"protocol", Protocol, 10000, 150000}, {"inputs", Inputs, 4000, 40000}}, true, 8, 30);
}
