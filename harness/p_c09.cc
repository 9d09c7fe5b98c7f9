// LIBS: fcp_client pbt
// C09: polling of long-running operations, protocol requests, error mapping.
#include <map>
#include <set>
#include <string>

#include "client_fakes.h"
#include "fake_http.h"
#include "fcp/base/compression.h"
#include "fcp/base/time_util.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/protocol_request_helper.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"
#include "pbt/pbt.h"
#include "runner_box.h"

using namespace fcp::client::http;  // NOLINT
namespace fc = ::google::internal::federatedcompute::v1;
using ::google::longrunning::Operation;
using fakes::Reply;
using fakes::Seen;
using pbt::Case;
using pbt::Src;
using Method = HttpRequest::Method;
using Code = absl::StatusCode;

namespace {

std::string Unescape(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      o += char(std::stoi(s.substr(i + 1, 2), nullptr, 16));
      i += 2;
    } else {
      o += s[i];
    }
  }
  return o;
}

void Codes(Src& s, Case& c) {
  int code = s.weighted({3, 1}) == 0 ? int(s.draw(700)) : int(s.edgy_signed());
  // The table of google.rpc.Code's documentation, and ranges for the rest.
  static const std::map<int, Code> table = {
      {400, Code::kInvalidArgument}, {401, Code::kUnauthenticated}, {403, Code::kPermissionDenied},
      {404, Code::kNotFound}, {409, Code::kAborted}, {429, Code::kResourceExhausted}, {499, Code::kCancelled},
      {501, Code::kUnimplemented}, {503, Code::kUnavailable}, {504, Code::kDeadlineExceeded}};
  Code want = Code::kUnknown;
  if (code >= 200 && code < 300) want = Code::kOk;
  else if (table.count(code)) want = table.at(code);
  else if (code >= 400 && code < 500) want = Code::kFailedPrecondition;
  else if (code >= 500 && code < 600) want = Code::kInternal;
  c.log << code;
  c.nontrivial(true);
  absl::Status got = ConvertHttpCodeToStatus(code);
  PBT_EQ(int(got.code()), int(want), "status of HTTP code " + std::to_string(code));
  if (!got.ok()) PBT_CHECK(std::string(got.message()).find(std::to_string(code)) != std::string::npos, "the HTTP code is not in the message");

  int rpc = s.chance(4, 5) ? int(s.draw(18)) : int(s.edgy_signed());
  std::string msg = s.str(8, "ab c%");
  google::rpc::Status r;
  r.set_code(rpc);
  r.set_message(msg);
  absl::Status back = ConvertRpcStatusToAbslStatus(r);
  int want_rpc = rpc >= 0 && rpc <= 16 ? rpc : int(Code::kUnknown);
  PBT_EQ(int(back.code()), want_rpc, "status of rpc code " + std::to_string(rpc));
  if (!back.ok()) PBT_EQ(std::string(back.message()), msg, "message");
  if (rpc > 0 && rpc <= 16) {
    google::rpc::Status again = ConvertAbslStatusToRpcStatus(back);
    PBT_EQ(again.code(), rpc, "code after a round trip");
    PBT_EQ(again.message(), msg, "message after a round trip");
  }
  // Header lookup: first match, any case.
  HeaderList h;
  std::string needle = s.of<std::string>({"X-A", "x-b", "Content-Type"});
  std::optional<std::string> first;
  int n = s.draw(5);
  auto lower = [](std::string x) { for (char& ch : x) ch = tolower(ch); return x; };
  for (int i = 0; i < n; ++i) {
    std::string name = s.of<std::string>({"X-A", "x-a", "X-B", "content-TYPE", "X-AB", "X-", ""});
    std::string v = s.str(4, "ab ");
    h.push_back({name, v});
    if (!first && lower(name) == lower(needle)) first = v;
  }
  auto found = FindHeader(h, needle);
  PBT_CHECK(found == first, "header lookup");
}

std::string OpName(Src& s) {
  switch (s.weighted({6, 2, 1})) {
    case 0: return "operations/" + s.ident(5);
    case 1: return "operations/" + s.str(6, "a/ %?#:b\x01~");
    default: return "operations/";
  }
}

struct Fwd {
  std::string base;
  HeaderList headers;
  fc::ForwardingInfo proto;
};

Fwd Forwarding(Src& s) {
  Fwd f;
  f.base = "https://" + s.ident(4) + ".example" + (s.flip() ? "/" + s.ident(3) : "") + (s.flip() ? "/" : "");
  f.proto.set_target_uri_prefix(f.base);
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    std::string k = "x-" + s.ident(3) + std::to_string(i), v = s.str(5, "ab c");
    (*f.proto.mutable_extra_request_headers())[k] = v;
    f.headers.push_back({k, v});
  }
  return f;
}

// The parts common to all requests made on behalf of a server's instructions.
void CheckCommon(const Seen& q, const Fwd& f, const std::string& key) {
  for (auto& h : f.headers) {
    PBT_EQ(q.Count(h.first), 1, "forwarded header " + h.first);
    PBT_EQ(q.Header(h.first), h.second, "forwarded header " + h.first);
  }
  PBT_EQ(q.Count("x-goog-api-key"), 1, "api key headers");
  PBT_EQ(q.Header("x-goog-api-key"), key, "api key");
}

// Splits an address into path below the base and its query parameters.
std::pair<std::string, std::map<std::string, std::string>> Split(const std::string& uri, const Fwd& f) {
  std::string base = f.base.back() == '/' ? f.base.substr(0, f.base.size() - 1) : f.base;
  PBT_CHECK(uri.compare(0, base.size() + 1, base + "/") == 0, "request to " + uri + " instead of below " + base);
  std::string rest = uri.substr(base.size());
  std::map<std::string, std::string> params;
  auto q = rest.find('?');
  if (q == std::string::npos) return {rest, params};
  std::string tail = rest.substr(q + 1);
  rest = rest.substr(0, q);
  while (true) {
    auto amp = tail.find('&');
    std::string one = tail.substr(0, amp);
    auto eq = one.find('=');
    PBT_CHECK(eq != std::string::npos, "malformed parameter in " + uri);
    PBT_CHECK(params.emplace(Unescape(one.substr(0, eq)), one.substr(eq + 1)).second, "repeated parameter in " + uri);
    if (amp == std::string::npos) break;
    tail = tail.substr(amp + 1);
  }
  return {rest, params};
}

void Requests(Src& s, Case& c) {
  Fwd f = Forwarding(s);
  std::string key = s.ident(6);
  bool gz = s.flip();
  bool missing = s.chance(1, 15);
  if (missing) f.proto.clear_target_uri_prefix();
  auto creator = ProtocolRequestCreator::Create(key, f.proto, gz);
  if (missing) {
    PBT_CHECK(creator.status().code() == Code::kInvalidArgument, "forwarding information without an address was accepted");
    return;
  }
  PBT_CHECK(creator.ok(), "creator");
  QueryParams params;
  std::map<std::string, std::string> want;
  int n = s.draw(3);
  for (int i = 0; i < n; ++i) {
    std::string k = "p" + std::to_string(i), v = s.ident(3);
    params[k] = v;
    want[k] = v;
  }
  std::string path = s.chance(1, 8) ? "" : "/v1/" + s.ident(5) + ":" + s.ident(3);
  bool bad_path = s.chance(1, 15);
  if (bad_path) path = "v1/x";
  std::string body = s.bytes(40);
  bool proto = s.flip();
  Method m = s.of<Method>({Method::kPost, Method::kPut, Method::kPatch, Method::kDelete, Method::kGet});
  if (m == Method::kGet) body = "", gz = false;
  if (m == Method::kGet) creator = ProtocolRequestCreator::Create(key, f.proto, false);
  c.log << path << " params " << n << " body " << body.size() << (gz ? " gzip" : "") << (proto ? " proto" : "");
  auto r = (*creator)->CreateProtocolRequest(path, params, m, body, proto);
  if (bad_path) {
    PBT_CHECK(r.status().code() == Code::kInvalidArgument, "a path without a leading slash was accepted");
    return;
  }
  PBT_CHECK(r.ok(), "request: " + r.status().ToString());
  Seen q;
  q.uri = std::string((*r)->uri());
  q.headers = (*r)->extra_headers();
  CheckCommon(q, f, key);
  if (proto) want["$alt"] = "proto";
  auto [got_path, got_params] = Split(q.uri, f);
  PBT_EQ(got_path, path.empty() ? std::string("/") : path, "path");
  PBT_CHECK(got_params == want, "parameters of " + q.uri);
  PBT_EQ(q.Count("Content-Type"), int(proto && !body.empty()), "content type headers");
  if (proto && !body.empty()) PBT_EQ(q.Header("Content-Type"), std::string("application/x-protobuf"), "content type");
  PBT_EQ(q.Count("Content-Encoding"), int(gz), "content encoding headers");
  std::string sent;
  char buf[16];
  while (true) {
    auto k = (*r)->ReadBody(buf, 16);
    if (!k.ok()) break;
    sent.append(buf, *k);
  }
  if (gz) {
    auto u = fcp::UncompressWithGzip(sent);
    PBT_CHECK(u.ok(), "body does not decompress");
    sent = std::string(*u);
  }
  PBT_CHECK(sent == body, "body changed");
  PBT_CHECK((*r)->method() == m, "method");
  c.nontrivial(!body.empty() || n);
  // Operation requests.
  std::string name = OpName(s);
  auto g = (*creator)->CreateGetOperationRequest(name);
  auto x = (*creator)->CreateCancelOperationRequest(name);
  PBT_CHECK(g.ok() && x.ok(), "operation requests");
  for (bool cancel : {false, true}) {
    HttpRequest& o = cancel ? **x : **g;
    Seen oq;
    oq.uri = std::string(o.uri());
    oq.headers = o.extra_headers();
    CheckCommon(oq, f, key);
    auto [p, pp] = Split(oq.uri, f);
    PBT_EQ(Unescape(p), "/v1/" + name + (cancel ? ":cancel" : ""), "operation path");
    PBT_CHECK(pp.size() == 1 && pp["$alt"] == "proto", "operation parameters");
    PBT_CHECK(o.method() == (cancel ? Method::kPost : Method::kGet), "operation method");
    PBT_CHECK(!o.HasBody(), "operation request with a body");
    PBT_EQ(oq.Count("Content-Encoding"), 0, "operation request with an encoding");
  }
}

// Metadata with a polling interval, of each kind of operation.
absl::Duration SetInterval(Src& s, Operation* op, std::string* text) {
  google::protobuf::Duration d;
  switch (s.weighted({3, 2, 1, 1, 1})) {
    case 0: d.set_seconds(0); d.set_nanos(1000000 * s.urange(1, 900)); break;
    case 1: d.set_seconds(s.urange(1, 60)); break;
    case 2: d.set_seconds(s.urange(61, 100000)); break;
    case 3: d.set_seconds(-int64_t(s.urange(1, 100))); break;
    default: break;
  }
  absl::Duration want = absl::Seconds(d.seconds()) + absl::Nanoseconds(d.nanos());
  int kind = s.draw(6);
  auto fill = [&](auto m) {
    *m.mutable_polling_interval() = d;
    op->mutable_metadata()->PackFrom(m);
  };
  switch (kind) {
    case 0: fill(fc::StartTaskAssignmentMetadata()); break;
    case 1: fill(fc::AdvertiseKeysMetadata()); break;
    case 2: fill(fc::ShareKeysMetadata()); break;
    case 3: fill(fc::SubmitSecureAggregationResultMetadata()); break;
    case 4:
      op->mutable_metadata()->set_type_url("type.googleapis.com/google.internal.federatedcompute.v1.StartTaskAssignmentMetadata");
      op->mutable_metadata()->set_value("\xff\xff\xff");
      *text += " bad-metadata";
      return absl::InfiniteDuration();
    default: return absl::InfiniteDuration();
  }
  *text += " every " + absl::FormatDuration(want);
  return want;
}

void Poll(Src& s, Case& c) {
  fakes::Run run;
  fakes::Http http;
  fakes::StepClock clock(absl::FromUnixSeconds(1000));
  auto watch = fcp::WallClockStopwatch::Create();
  int64_t up = 0, down = 0;
  ProtocolRequestHelper helper(&http, &down, &up, watch.get(), &clock);
  Fwd f = Forwarding(s);
  std::string key = s.ident(4);
  auto creator = ProtocolRequestCreator::Create(key, f.proto, s.flip());
  PBT_CHECK(creator.ok(), "creator");
  // The answers: pending operations, then one that ends the polling.
  int pending = s.weighted({1, 3}) == 0 ? 0 : s.urange(1, 6);
  std::vector<Operation> ops;
  std::vector<absl::Duration> intervals;
  std::string text;
  for (int i = 0; i < pending; ++i) {
    Operation op;
    op.set_name(i == 0 || s.chance(3, 4) ? (i ? ops.back().name() : OpName(s)) : OpName(s));
    intervals.push_back(SetInterval(s, &op, &text));
    ops.push_back(op);
  }
  enum End { kResult, kError, kHttp, kGarbage, kBadName, kLost, kInterrupted, kEncoded };
  End end = End(s.weighted({4, 3, 2, 1, 1, 1, 2, 1}));
  if (pending == 0 && end != kResult && end != kError && end != kBadName) end = kResult;
  Operation last;
  int http_code = s.of<int>({400, 401, 403, 404, 409, 429, 500, 503, 504});
  Code lost = s.of<Code>({Code::kUnavailable, Code::kDeadlineExceeded, Code::kInternal});
  switch (end) {
    case kResult:
      last.set_name(s.chance(4, 5) ? OpName(s) : "");
      last.set_done(true);
      last.mutable_response()->set_type_url("t/" + s.ident(3));
      last.mutable_response()->set_value(s.bytes(20));
      break;
    case kError:
      last.set_name(OpName(s));
      last.set_done(true);
      last.mutable_error()->set_code(s.urange(1, 16));
      last.mutable_error()->set_message(s.ident(4));
      break;
    case kBadName:
      last.set_name(s.of<std::string>({"", "operation/x", "xoperations/1", "operations", "Operations/x"}));
      break;
    default: break;
  }
  c.log << "pending " << pending << text << " end " << int(end);
  int served = 0;
  int64_t su = 0, sd = 0;
  http.handler = [&](const Seen&) {
    served++;
    Reply r;
    r.sent = s.draw(50);
    r.received = s.draw(50);
    su += r.sent;
    sd += r.received;
    if (served < pending) {
      r.body = ops[served].SerializeAsString();
      r.pieces = {1, 2};
      return r;
    }
    switch (end) {
      case kHttp: r.code = http_code; r.body = "x"; break;
      case kGarbage: r.body = "\xff\xff\xff\xff"; break;
      case kLost: r.fail = s.flip() ? Reply::kBeforeHeaders : Reply::kDuringBody; r.error = absl::Status(lost, "lost"); break;
      case kInterrupted: r.fail = s.flip() ? Reply::kHang : Reply::kHangInBody; run.abort = true; break;
      case kEncoded: r.headers.push_back({"Content-Encoding", "gzip"}); r.body = last.SerializeAsString(); break;
      default: r.body = last.SerializeAsString();
    }
    return r;
  };
  bool abort_in_sleep = false;
  if (end == kInterrupted && s.flip()) {
    abort_in_sleep = true;
    clock.on_sleep = [&] { if (int(clock.sleeps.size()) == pending) run.abort = true; };
  }
  const Operation& first = pending ? ops[0] : last;
  auto got = helper.PollOperationResponseUntilDone(first, **creator, run.runner);
  PBT_CHECK(http.misuse.empty(), http.misuse);
  // Each pending answer is followed by one wait and one request for it.
  PBT_EQ(int(http.seen.size()), abort_in_sleep ? pending - 1 : pending, "number of polls");
  PBT_EQ(int(clock.sleeps.size()), pending, "number of waits");
  for (int i = 0; i < int(http.seen.size()); ++i) {
    const Seen& q = http.seen[i];
    CheckCommon(q, f, key);
    auto [p, pp] = Split(q.uri, f);
    PBT_EQ(Unescape(p), "/v1/" + ops[i].name(), "polled operation");
    PBT_CHECK(pp.size() == 1 && pp["$alt"] == "proto", "poll parameters");
    PBT_CHECK(q.method == Method::kGet && !q.has_body, "poll method");
  }
  for (int i = 0; i < pending; ++i) {
    absl::Duration w = clock.sleeps[i];
    PBT_CHECK(w >= absl::ZeroDuration() && w <= absl::Minutes(1), "waited " + absl::FormatDuration(w));
    if (intervals[i] >= absl::Milliseconds(1) && intervals[i] <= absl::Minutes(1)) {
      PBT_EQ(absl::ToInt64Nanoseconds(w), absl::ToInt64Nanoseconds(intervals[i]), "wait before poll " + std::to_string(i));
    } else if (intervals[i] > absl::Minutes(1) && intervals[i] != absl::InfiniteDuration()) {
      PBT_EQ(absl::ToInt64Nanoseconds(w), absl::ToInt64Nanoseconds(absl::Minutes(1)), "longest wait");
    }
  }
  PBT_EQ(up, su, "bytes sent");
  PBT_EQ(down, sd, "bytes received");
  c.nontrivial(pending > 0);
  switch (end) {
    case kResult:
    case kError:
      PBT_CHECK(got.ok(), "a finished operation was lost: " + got.status().ToString());
      PBT_EQ(got->SerializeAsString(), last.SerializeAsString(), "another operation came back");
      c.label(end == kResult ? "result" : "error");
      break;
    case kHttp:
      PBT_EQ(int(got.status().code()), int(ConvertHttpCodeToStatus(http_code).code()), "code of a failed poll");
      c.label("http error");
      break;
    case kLost:
      PBT_EQ(int(got.status().code()), int(lost), "code of a lost poll");
      break;
    case kInterrupted:
      PBT_EQ(int(got.status().code()), int(Code::kCancelled), "code of an interrupted poll");
      c.label("interrupted");
      break;
    case kGarbage:
    case kEncoded:
    case kBadName:
      PBT_CHECK(!got.ok(), "an unusable answer was accepted");
  }
  // Cancelling goes to the same place.
  if (s.chance(1, 4) && !run.abort) {
    size_t before = http.seen.size();
    int cancel_code = s.of<int>({200, 404, 503});
    http.handler = [&](const Seen&) {
      Reply r;
      r.code = cancel_code;
      return r;
    };
    std::string name = OpName(s);
    auto x = helper.CancelOperation(name, **creator, run.runner);
    PBT_EQ(http.seen.size(), before + 1, "one cancel request");
    const Seen& q = http.seen.back();
    CheckCommon(q, f, key);
    PBT_EQ(Unescape(Split(q.uri, f).first), "/v1/" + name + ":cancel", "cancelled operation");
    PBT_EQ(x.ok(), cancel_code == 200, "outcome of cancelling");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C09",
                   "every code; a request with parameters or a body; an operation polled at least once",
                   {{"codes", Codes, 20000, 200000},
                    {"requests", Requests, 8000, 100000},
                    {"poll", Poll, 8000, 100000}});
}
