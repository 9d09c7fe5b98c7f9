// A federated compute server for the HTTP protocol, driven by generated data.
// It decodes and checks every request and lets the harness inject a fault
// into any answer.
#ifndef VERIF_FC_SERVER_H_
#define VERIF_FC_SERVER_H_

#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>

#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "fake_http.h"
#include "fcp/base/compression.h"
#include "fcp/confidentialcompute/crypto.h"
#include "fcp/protos/federatedcompute/aggregations.pb.h"
#include "fcp/protos/federatedcompute/common.pb.h"
#include "fcp/protos/federatedcompute/confidential_aggregations.pb.h"
#include "fcp/protos/federatedcompute/eligibility_eval_tasks.pb.h"
#include "fcp/protos/federatedcompute/secure_aggregations.pb.h"
#include "fcp/protos/federatedcompute/task_assignments.pb.h"
#include "google/longrunning/operations.pb.h"
#include "pbt/pbt.h"

namespace fakes {

namespace fc = ::google::internal::federatedcompute::v1;
using ::google::longrunning::Operation;
using Method = fh::HttpRequest::Method;
using Code = absl::StatusCode;
using pbt::Src;

struct Fault {
  enum Kind { kNone, kHttp, kLost, kInterrupt, kGarbage };
  Kind kind = kNone;
  int http = 0;
  Code lost = Code::kUnavailable;
  explicit operator bool() const { return kind != kNone; }
};

// The codes the answers with these HTTP statuses stand for.
inline Code CodeOfHttp(int http) {
  switch (http) {
    case 400: return Code::kInvalidArgument;
    case 401: return Code::kUnauthenticated;
    case 403: return Code::kPermissionDenied;
    case 404: return Code::kNotFound;
    case 409: return Code::kAborted;
    case 429: return Code::kResourceExhausted;
    case 501: return Code::kUnimplemented;
    case 503: return Code::kUnavailable;
    default: return Code::kInternal;
  }
}

inline std::optional<Code> CodeOf(const Fault& f) {
  switch (f.kind) {
    case Fault::kHttp: return CodeOfHttp(f.http);
    case Fault::kLost: return f.lost;
    case Fault::kInterrupt: return Code::kCancelled;
    default: return std::nullopt;
  }
}

inline Fault DrawFault(Src& s, bool interruptible, bool garbage) {
  Fault f;
  switch (s.weighted({5, 2, interruptible ? 2u : 0u, garbage ? 2u : 0u})) {
    case 0:
      f.kind = Fault::kHttp;
      f.http = s.of<int>({400, 401, 403, 404, 409, 429, 500, 501, 503});
      break;
    case 1:
      f.kind = Fault::kLost;
      f.lost = s.of<Code>({Code::kUnavailable, Code::kDeadlineExceeded, Code::kInternal, Code::kAborted});
      break;
    case 2: f.kind = Fault::kInterrupt; break;
    default: f.kind = Fault::kGarbage;
  }
  return f;
}

struct Forward {
  std::string base;
  fh::HeaderList headers;
  bool missing = false;

  void Fill(fc::ForwardingInfo* p) const {
    if (!missing) p->set_target_uri_prefix(base);
    for (auto& h : headers) (*p->mutable_extra_request_headers())[h.first] = h.second;
  }
};

inline Forward DrawForward(Src& s, const std::string& host) {
  Forward f;
  f.base = "https://" + host + ".example" + (s.flip() ? "/" + s.ident(3) : "") + (s.flip() ? "/" : "");
  int n = s.draw(3);
  for (int i = 0; i < n; ++i) f.headers.push_back({"x-" + host + std::to_string(i), s.str(4, "ab c")});
  return f;
}

// A piece of data the server offers.
struct Offer {
  enum Kind { kInline, kInlineGzip, kUri, kNone, kEmptyUri, kOddFormat, kBadGzip };
  Kind kind = kNone;
  std::string data;
  std::string uri;
  Fault fault;  // when fetched

  void Fill(fc::Resource* r) const {
    switch (kind) {
      case kInline: r->mutable_inline_resource()->set_data(data); break;
      case kInlineGzip:
        r->mutable_inline_resource()->set_data(std::string(*fcp::CompressWithGzip(data)));
        r->mutable_inline_resource()->set_compression_format(fc::RESOURCE_COMPRESSION_FORMAT_GZIP);
        break;
      case kBadGzip:
        r->mutable_inline_resource()->set_data("not compressed");
        r->mutable_inline_resource()->set_compression_format(fc::RESOURCE_COMPRESSION_FORMAT_GZIP);
        break;
      case kUri: r->set_uri(uri); break;
      case kEmptyUri: r->set_uri(""); break;
      case kOddFormat:
        r->mutable_inline_resource()->set_data(data);
        r->mutable_inline_resource()->set_compression_format(fc::RESOURCE_COMPRESSION_FORMAT_UNSPECIFIED);
        break;
      case kNone: break;
    }
  }
  bool Refused() const { return kind == kEmptyUri || kind == kOddFormat; }
  // The error of obtaining it: kOk if there is none, kUnknown if it is open.
  Code Error() const {
    switch (kind) {
      case kEmptyUri: return Code::kInvalidArgument;
      case kOddFormat: return Code::kUnimplemented;
      case kBadGzip: return Code::kUnknown;
      case kUri: return fault ? CodeOf(fault).value_or(Code::kUnknown) : Code::kOk;
      default: return Code::kOk;
    }
  }
};

enum AggType { kSimple, kSecAgg, kConfidential, kUnset };

struct ServerTask {
  int index = 0;
  std::string name, aggregation, session, authorization, token, select;
  bool give_token = true;
  AggType type = kSimple;
  int min_clients = 0;
  Offer plan, checkpoint, policy, encryption;
  Forward agg, aggp, up;
  std::string resource;
  int polls = 0;       // pending answers before the upload may start
  int op_error = 0;    // rpc code the start ends with
  bool wrong_type = false;
  fc::StartSecureAggregationResponse secagg;
  // What arrived.
  std::vector<std::string> uploads;
  int submits = 0, aborts = 0;
  std::string submitted_resource;
  std::vector<int> abort_codes;
  std::vector<fc::ReportTaskResultRequest> reports;

  std::string Token() const { return give_token || type == kConfidential ? token : authorization; }
};

struct ServerEvent {
  std::string kind;
  int batch = 0;
  Fault fault;
  bool used = false;
};

class FcServer {
 public:
  std::function<Fault(const std::string& kind)> fault;
  std::function<void(const std::string& kind)> before;  // sees every request
  std::string api_key, population, session;
  bool compress = true;
  Forward entry, ta;
  fc::EligibilityEvalTaskResponse eet;
  bool garbage_response = false;
  std::vector<ServerTask> tasks;
  int single = -1;  // the task the single assignment gives, or none
  std::vector<int> several;
  // How the single assignment goes.
  int ta_polls = 0, ta_error = 0;
  bool ta_reject = false, ta_empty = false, ta_wrong_type = false;
  std::map<std::string, Offer*> offers;  // by uri
  // What arrived.
  std::vector<ServerEvent> events;
  std::string problem;
  fc::EligibilityEvalTaskRequest eet_request;
  std::vector<int> eet_reports;
  fc::StartTaskAssignmentRequest ta_request;
  fc::PerformMultipleTaskAssignmentsRequest multi_request;
  int64_t sent = 0, received = 0;
  std::function<int64_t()> amount;
  std::vector<std::string> bodies;  // every decoded body
  // Answers for the secure aggregation messages, if any.
  std::function<std::optional<Reply>(const Seen&, int task, const std::string& rest, const std::string& body)> more;

  fc::TaskAssignment Assignment(const ServerTask& t) const {
    fc::TaskAssignment a;
    t.agg.Fill(a.mutable_aggregation_data_forwarding_info());
    a.set_session_id(t.session);
    a.set_aggregation_id(t.aggregation);
    a.set_authorization_token(t.authorization);
    a.set_task_name(t.name);
    if (t.plan.kind != Offer::kNone) t.plan.Fill(a.mutable_plan());
    if (t.checkpoint.kind != Offer::kNone) t.checkpoint.Fill(a.mutable_init_checkpoint());
    a.mutable_federated_select_uri_info()->set_uri_template(t.select);
    switch (t.type) {
      case kSimple: a.mutable_aggregation_info(); break;
      case kSecAgg: a.mutable_secure_aggregation_info()->set_minimum_clients_in_server_visible_aggregate(t.min_clients); break;
      case kConfidential: {
        auto* i = a.mutable_confidential_aggregation_info();
        if (t.policy.kind != Offer::kNone) t.policy.Fill(i->mutable_data_access_policy());
        break;
      }
      case kUnset: break;
    }
    return a;
  }

  Reply Handle(const Seen& q) {
    Reply r = Answer(q);
    if (amount) {
      r.sent = amount();
      r.received = amount();
      sent += r.sent;
      received += r.received;
    }
    if (r.body.size() > 3) r.pieces = {1, r.body.size() / 2};
    return r;
  }

 private:
  static std::string Unescape(const std::string& s) {
    std::string o;
    for (size_t i = 0; i < s.size(); ++i) {
      if (s[i] == '%' && i + 2 < s.size()) {
        o += char(std::stoi(s.substr(i + 1, 2), nullptr, 16));
        i += 2;
      } else {
        o += s[i];
      }
    }
    return o;
  }

  void Bad(const std::string& what) {
    if (problem.empty()) problem = what;
  }

  // Whether the request is below this base; if so what follows it.
  bool Below(const Seen& q, const Forward& f, std::string* rest, bool proto) {
    std::string base = f.base.back() == '/' ? f.base.substr(0, f.base.size() - 1) : f.base;
    if (f.missing || q.uri.compare(0, base.size() + 1, base + "/") != 0) return false;
    *rest = q.uri.substr(base.size());
    auto p = rest->find('?');
    std::string params = p == std::string::npos ? "" : rest->substr(p + 1);
    *rest = rest->substr(0, p);
    std::string want = proto ? "%24alt=proto" : "upload_protocol=raw";
    if (params != want) Bad("parameters of " + q.uri);
    for (auto& h : f.headers) {
      if (q.Count(h.first) != 1 || q.Header(h.first) != h.second) Bad("forwarded header " + h.first + " in " + q.uri);
    }
    for (auto& h : q.headers) {
      if (absl::StartsWith(h.first, "x-") && h.first != "x-goog-api-key") {
        bool own = false;
        for (auto& g : f.headers) own |= g.first == h.first;
        if (!own) Bad("header " + h.first + " sent to " + q.uri);
      }
    }
    if (q.Count("x-goog-api-key") != 1 || q.Header("x-goog-api-key") != api_key) Bad("api key in " + q.uri);
    return true;
  }

  template <class M>
  bool Parse(const std::string& body, M* m, const std::string& what) {
    if (m->ParseFromString(body)) return true;
    Bad("body of " + what);
    return false;
  }

  // Records the event and applies a fault.
  bool Faulty(const std::string& kind, const Seen& q, Reply* r) {
    if (before) before(kind);
    ServerEvent e;
    e.kind = kind;
    e.batch = q.batch;
    if (fault) e.fault = fault(kind);
    events.push_back(e);
    switch (e.fault.kind) {
      case Fault::kNone: return false;
      case Fault::kHttp:
        r->code = e.fault.http;
        r->body = "no";
        return true;
      case Fault::kLost:
        r->fail = (e.fault.http & 1) ? Reply::kDuringBody : Reply::kBeforeHeaders;
        r->error = absl::Status(e.fault.lost, "lost");
        return true;
      case Fault::kInterrupt:
        r->fail = Reply::kHang;
        return true;
      case Fault::kGarbage:
        r->body = std::string("\x0a\xff\xff\xff\xff\x0f\x01", 7);
        return true;
    }
    return false;
  }

  struct Op {
    std::string kind;
    Forward* where;
    int left;
    Operation done;
  };
  std::map<std::string, Op> ops_;

  Reply StartOp(const std::string& kind, Forward* where, int polls, Operation done, bool ta) {
    Reply r;
    std::string name = "operations/" + kind + "#" + std::to_string(ops_.size()) + "/x y";
    done.set_name(name);
    done.set_done(true);
    ops_[name] = Op{kind, where, polls, done};
    r.body = Step(name, ta);
    return r;
  }
  std::string Step(const std::string& name, bool ta = false) {
    Op& o = ops_[name];
    if (o.left-- <= 0) return o.done.SerializeAsString();
    Operation p;
    p.set_name(name);
    if (ta || o.kind == "ta_start") {
      fc::StartTaskAssignmentMetadata m;
      m.mutable_polling_interval()->set_nanos(1000000);
      p.mutable_metadata()->PackFrom(m);
    }
    return p.SerializeAsString();
  }

  Reply Answer(const Seen& q) {
    Reply r;
    std::string rest;
    // Plain downloads.
    auto off = offers.find(q.uri);
    if (off != offers.end()) {
      if (q.method != Method::kGet || q.has_body) Bad("download method");
      auto old = fault;
      Offer* o = off->second;
      fault = [&](const std::string&) { return o->fault; };
      bool faulty = Faulty("res " + q.uri, q, &r);
      fault = old;
      if (o->fault.kind == Fault::kGarbage) r.body = o->data;
      if (!faulty) r.body = o->data;
      return r;
    }
    std::string body = q.body;
    if (q.Header("Content-Encoding") == "gzip") {
      auto u = fcp::UncompressWithGzip(body);
      if (!u.ok()) {
        Bad("body of " + q.uri + " does not decompress");
      } else {
        body = std::string(*u);
      }
      if (!compress) Bad("compressed body although switched off");
    } else if (q.Count("Content-Encoding")) {
      Bad("content encoding");
    }
    bodies.push_back(body);
    // Operations.
    auto op = q.uri.find("/v1/operations/");
    if (op != std::string::npos) {
      std::string name = q.uri.substr(op + 4);
      name = Unescape(name.substr(0, name.find('?')));
      bool cancel = absl::EndsWith(name, ":cancel");
      if (cancel) name = name.substr(0, name.size() - 7);
      auto it = ops_.find(name);
      if (it == ops_.end()) {
        Bad("unknown operation " + name);
        return r;
      }
      if (!Below(q, *it->second.where, &rest, true)) Bad("operation polled at " + q.uri);
      if (q.method != (cancel ? Method::kPost : Method::kGet)) Bad("method of an operation request");
      if (Faulty((cancel ? "cancel " : "poll ") + it->second.kind, q, &r)) return r;
      if (!cancel) r.body = Step(name);
      return r;
    }
    if (q.method != Method::kPost) Bad("method of " + q.uri);
    if (Below(q, entry, &rest, true)) {
      rest = Unescape(rest);
      if (rest == "/v1/eligibilityevaltasks/" + population + ":request") {
        Parse(body, &eet_request, "the eligibility request");
        if (Faulty("eet", q, &r)) return r;
        r.body = eet.SerializeAsString();
        return r;
      }
      if (rest == "/v1/populations/" + population + "/eligibilityevaltasks/" + session + ":reportresult") {
        fc::ReportEligibilityEvalTaskResultRequest m;
        Parse(body, &m, "the eligibility report");
        eet_reports.push_back(m.status_code());
        Faulty("eet_report", q, &r);
        return r;
      }
      Bad("request to " + q.uri);
      return r;
    }
    if (Below(q, ta, &rest, true)) {
      rest = Unescape(rest);
      std::string pre = "/v1/populations/" + population + "/taskassignments/";
      if (rest == pre + session + ":start") {
        Parse(body, &ta_request, "the assignment request");
        if (Faulty("ta_start", q, &r)) return r;
        Operation done;
        fc::StartTaskAssignmentResponse m;
        if (ta_error) {
          done.mutable_error()->set_code(ta_error);
          done.mutable_error()->set_message("denied");
        } else if (ta_wrong_type) {
          done.mutable_response()->PackFrom(fc::ReportTaskResultResponse());
        } else {
          if (ta_reject) m.mutable_rejection_info();
          else if (single >= 0 && !ta_empty) *m.mutable_task_assignment() = Assignment(tasks[single]);
          done.mutable_response()->PackFrom(m);
        }
        return StartOp("ta_start", &ta, ta_polls, done, true);
      }
      if (rest == pre + session + ":performmultiple") {
        Parse(body, &multi_request, "the multiple assignment request");
        if (Faulty("ta_multi", q, &r)) return r;
        fc::PerformMultipleTaskAssignmentsResponse m;
        for (int i : several) *m.add_task_assignments() = Assignment(tasks[i]);
        r.body = m.SerializeAsString();
        return r;
      }
      for (auto& t : tasks) {
        if (rest != pre + t.session + ":reportresult") continue;
        fc::ReportTaskResultRequest m;
        Parse(body, &m, "the task report");
        if (m.aggregation_id() != t.aggregation) continue;
        if (m.task_name() != t.name) Bad("task name of a report");
        t.reports.push_back(m);
        Faulty("report " + std::to_string(t.index), q, &r);
        return r;
      }
      Bad("request to " + q.uri);
      return r;
    }
    for (auto& t : tasks) {
      std::string n = std::to_string(t.index);
      const char* family = t.type == kConfidential ? "/v1/confidentialaggregations/" : "/v1/aggregations/";
      auto path = [&](const std::string& token, const char* verb) { return family + t.aggregation + "/clients/" + token + verb; };
      if (Below(q, t.agg, &rest, true)) {
        rest = Unescape(rest);
        bool sa = rest == "/v1/secureaggregations/" + t.aggregation + "/clients/" + t.authorization + ":start";
        if (!sa && rest != path(t.authorization, ":startdataupload")) {
          Bad("request to " + q.uri);
          return r;
        }
        if (Faulty((sa ? "sa_start " : "start ") + n, q, &r)) return r;
        Operation done;
        if (t.op_error) {
          done.mutable_error()->set_code(t.op_error);
          done.mutable_error()->set_message("denied");
        } else if (t.wrong_type) {
          done.mutable_response()->PackFrom(fc::ReportTaskResultResponse());
        } else if (sa) {
          fc::StartSecureAggregationResponse m = t.secagg;
          if (t.give_token) m.set_client_token(t.token);
          t.aggp.Fill(m.mutable_secagg_protocol_forwarding_info());
          t.up.Fill(m.mutable_masked_result_resource()->mutable_data_upload_forwarding_info());
          m.mutable_masked_result_resource()->set_resource_name(t.resource);
          t.up.Fill(m.mutable_nonmasked_result_resource()->mutable_data_upload_forwarding_info());
          m.mutable_nonmasked_result_resource()->set_resource_name(t.resource + "-plain");
          done.mutable_response()->PackFrom(m);
        } else if (t.type == kConfidential) {
          fc::StartConfidentialAggregationDataUploadResponse m;
          t.aggp.Fill(m.mutable_aggregation_protocol_forwarding_info());
          t.up.Fill(m.mutable_resource()->mutable_data_upload_forwarding_info());
          m.mutable_resource()->set_resource_name(t.resource);
          m.set_client_token(t.token);
          if (t.encryption.kind != Offer::kNone) t.encryption.Fill(m.mutable_encryption_config());
          done.mutable_response()->PackFrom(m);
        } else {
          fc::StartAggregationDataUploadResponse m;
          t.aggp.Fill(m.mutable_aggregation_protocol_forwarding_info());
          t.up.Fill(m.mutable_resource()->mutable_data_upload_forwarding_info());
          m.mutable_resource()->set_resource_name(t.resource);
          if (t.give_token) m.set_client_token(t.token);
          done.mutable_response()->PackFrom(m);
        }
        return StartOp("start " + n, &t.agg, t.polls, done, false);
      }
      if (Below(q, t.aggp, &rest, true)) {
        std::string raw = rest;
        rest = Unescape(rest);
        if (more) {
          auto x = more(q, t.index, rest, body);
          if (x) return *x;
        }
        if (rest == path(t.Token(), ":submit")) {
          t.submits++;
          if (t.type == kConfidential) {
            fc::SubmitConfidentialAggregationResultRequest m;
            Parse(body, &m, "submit");
            t.submitted_resource = m.resource_name();
          } else {
            fc::SubmitAggregationResultRequest m;
            Parse(body, &m, "submit");
            t.submitted_resource = m.resource_name();
          }
          if (t.submitted_resource != t.resource) Bad("submitted resource");
          Faulty("submit " + n, q, &r);
          return r;
        }
        if (rest == path(t.Token(), ":abort")) {
          t.aborts++;
          if (t.type == kConfidential) {
            fc::AbortConfidentialAggregationRequest m;
            Parse(body, &m, "abort");
            t.abort_codes.push_back(m.status().code());
          } else {
            fc::AbortAggregationRequest m;
            Parse(body, &m, "abort");
            t.abort_codes.push_back(m.status().code());
          }
          Faulty("abort " + n, q, &r);
          return r;
        }
        Bad("request to " + q.uri);
        return r;
      }
      if (absl::StartsWith(q.uri, t.up.base.substr(0, t.up.base.size() - 1))) {
        if (!Below(q, t.up, &rest, false)) {
          Bad("request to " + q.uri);
          return r;
        }
        if (Unescape(rest) == "/upload/v1/media/" + t.resource) {
          if (t.type == kConfidential && q.Count("Content-Encoding")) Bad("an encrypted upload was compressed");
          t.uploads.push_back(body);
          Faulty("upload " + n, q, &r);
          return r;
        }
        if (more) {
          auto x = more(q, t.index, Unescape(rest), body);
          if (x) return *x;
        }
        Bad("request to " + q.uri);
        return r;
      }
    }
    Bad("request to " + q.uri);
    return r;
  }
};

}  // namespace fakes
#endif  // VERIF_FC_SERVER_H_
