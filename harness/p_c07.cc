// LIBS: fcp_client pbt
// C07: buffered HTTP exchanges and the addresses they go to.
#include <atomic>
#include <map>
#include <string>

#include "absl/strings/str_cat.h"
#include "client_fakes.h"
#include "fake_http.h"
#include "fcp/base/compression.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/http_resource_metadata.pb.h"
#include "fcp/client/http/in_memory_request_response.h"
#include "pbt/pbt.h"
#include "runner_box.h"

using namespace fcp::client::http;  // NOLINT
using fakes::Reply;
using fakes::Seen;
using pbt::Case;
using pbt::Src;
using Method = HttpRequest::Method;

namespace {

constexpr Method kMethods[] = {Method::kHead, Method::kGet,   Method::kPost,
                               Method::kPut,  Method::kPatch, Method::kDelete};

std::string Gzip(const std::string& s) {
  auto r = fcp::CompressWithGzip(s);
  PBT_CHECK(r.ok(), "compression failed");
  return std::string(*r);
}
std::string Gunzip(const std::string& s) {
  auto r = fcp::UncompressWithGzip(s);
  PBT_CHECK(r.ok(), "sent body does not decompress: " + pbt::Hex(s));
  return std::string(*r);
}

std::string Body(Src& s) {
  switch (s.weighted({2, 5, 3, 1})) {
    case 0: return "";
    case 1: return s.bytes(24);
    case 2: return std::string(s.urange(1, 400), char('a' + s.draw(3)));
    default: {
      std::string b;
      uint64_t x = s.draw(0) | 1;
      int n = s.urange(1000, 9000);
      for (int i = 0; i < n; ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        b += char(x >> 56);
      }
      return b;
    }
  }
}

using fakes::Run;

void Requests(Src& s, Case& c) {
  std::string uri;
  bool uri_ok = true;
  switch (s.weighted({6, 1, 1, 1, 1, 1, 1})) {
    case 0: uri = "https://h/" + s.ident(6); break;
    case 1: uri = "HTTPS://h/" + s.ident(6); break;
    case 2: uri = "http://localhost:" + std::to_string(s.draw(65536)) + "/x"; break;
    case 3: uri = "http://h/" + s.ident(3); uri_ok = false; break;
    case 4: uri = "http://localhostile.example/"; uri_ok = false; break;
    case 5: uri = s.of<std::string>({"", "ftp://h/", "https:/h", "//h/", "h/https://"}); uri_ok = false; break;
    default: uri = "http://localhost.example:80/"; uri_ok = false; break;
  }
  Method m = kMethods[s.draw(6)];
  HeaderList headers;
  bool length_given = false;
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    if (s.chance(1, 9)) {
      headers.push_back({s.of<std::string>({"Content-Length", "content-length", "CONTENT-LENGTH", "coNtent-Length"}), "3"});
      length_given = true;
    } else {
      headers.push_back({s.of<std::string>({"X-A", "x-b", "Accept-Encoding", "Content-Type", "Content-Lengthy", "Content"}), s.str(5, "abc:, ")});
    }
  }
  std::string body = Body(s);
  bool gz = s.flip();
  c.log << "uri=" << uri << " method=" << int(m) << " body=" << body.size() << (gz ? " gzip" : "") << " headers=" << headers.size();
  auto r = InMemoryHttpRequest::Create(uri, m, headers, body, gz);
  bool may_have_body = m != Method::kHead && m != Method::kGet;
  // A compressed empty body is itself not empty, so it needs a method with one.
  bool ok = uri_ok && !length_given && (may_have_body || (body.empty() && !gz));
  if (!ok) {
    c.nontrivial(true);
    PBT_CHECK(!r.ok(), "an invalid request was created");
    PBT_CHECK(r.status().code() == absl::StatusCode::kInvalidArgument, "wrong code: " + r.status().ToString());
    c.label("refused");
    return;
  }
  PBT_CHECK(r.ok(), "a valid request was refused: " + r.status().ToString());
  HttpRequest& q = **r;
  PBT_EQ(std::string(q.uri()), uri, "uri");
  PBT_CHECK(q.method() == m, "method");
  // The given headers first, then those the request adds.
  HeaderList got = q.extra_headers();
  PBT_CHECK(got.size() >= headers.size(), "headers were dropped");
  for (size_t i = 0; i < headers.size(); ++i) PBT_CHECK(got[i] == headers[i], "header changed");
  std::map<std::string, std::string> added;
  for (size_t i = headers.size(); i < got.size(); ++i) {
    PBT_CHECK(added.emplace(got[i].first, got[i].second).second, "header added twice");
  }
  // Read the body in pieces of any size.
  std::string sent;
  int64_t want_total = 0;
  while (true) {
    int64_t want = s.weighted({3, 1}) == 0 ? s.urange(1, 40) : s.urange(1, 100000);
    std::string buf(want + 8, '\x77');
    auto k = q.ReadBody(&buf[0], want);
    if (!k.ok()) {
      PBT_CHECK(k.status().code() == absl::StatusCode::kOutOfRange, "wrong end of data");
      PBT_CHECK(buf == std::string(want + 8, '\x77'), "buffer changed at the end");
      break;
    }
    PBT_CHECK(*k >= 1 && *k <= want, "read size");
    PBT_CHECK(buf.substr(*k) == std::string(want + 8 - *k, '\x77'), "wrote more than it said");
    sent.append(buf, 0, *k);
    want_total += *k;
    PBT_CHECK(want_total < 1000000, "body never ends");
  }
  for (int i = 0; i < 2; ++i) {
    char b[4];
    PBT_CHECK(q.ReadBody(b, 4).status().code() == absl::StatusCode::kOutOfRange, "the end is not final");
  }
  PBT_EQ(q.HasBody(), !sent.empty(), "HasBody disagrees with the data");
  PBT_EQ(added.count("Content-Encoding"), size_t(gz), "Content-Encoding");
  if (gz) {
    PBT_EQ(added["Content-Encoding"], std::string("gzip"), "Content-Encoding");
    PBT_CHECK(Gunzip(sent) == body, "the compressed body decodes to something else");
  } else {
    PBT_CHECK(sent == body, "body changed");
  }
  PBT_EQ(added.count("Content-Length"), size_t(!sent.empty()), "Content-Length");
  if (!sent.empty()) PBT_EQ(added["Content-Length"], std::to_string(sent.size()), "Content-Length");
  PBT_EQ(added.size(), size_t(gz) + !sent.empty(), "other headers were added");
  c.nontrivial(!body.empty());
  c.label(gz ? "compressed" : "plain");
}

// One generated answer and what the caller must get from it.
struct Want {
  bool error = false;
  absl::StatusCode code = absl::StatusCode::kUnknown;  // kUnknown: any error
  std::string body, encoding, type;
  int http = 200;
};

absl::Status AnyError(Src& s) {
  absl::StatusCode k = s.of<absl::StatusCode>(
      {absl::StatusCode::kUnavailable, absl::StatusCode::kDeadlineExceeded,
       absl::StatusCode::kOutOfRange, absl::StatusCode::kInternal,
       absl::StatusCode::kPermissionDenied});
  return absl::Status(k, "injected");
}

Reply MakeReply(Src& s, bool accepts_encoding, Want* w, std::string* text) {
  Reply r;
  r.body = Body(s);
  r.sent = s.draw(1000);
  r.received = s.draw(1000);
  size_t left = r.body.size();
  int pieces = s.draw(6);
  for (int i = 0; i < pieces && left > 0; ++i) {
    size_t n = s.urange(1, left < 50 ? left : 50);
    r.pieces.push_back(n);
    left -= n;
  }
  r.code = s.weighted({6, 1}) == 0
               ? s.of<int>({200, 200, 201, 204, 299})
               : s.of<int>({100, 199, 300, 301, 304, 400, 404, 429, 499, 500, 503, 599, 600, 0});
  w->http = r.code;
  if (s.chance(1, 2)) {
    w->type = s.of<std::string>({"application/octet-stream", "text/plain", "a+gzip2", "x/y"});
    r.headers.push_back({s.of<std::string>({"Content-Type", "content-type"}), w->type});
  }
  *text = "code " + std::to_string(r.code) + " body " + std::to_string(r.body.size());
  if (r.code < 200 || r.code >= 300) w->error = true;
  bool refused_at_start = false;
  if (s.chance(1, 12)) {
    r.headers.push_back({s.of<std::string>({"Content-Encoding", "content-encoding"}), "br"});
    w->encoding = "br";
    *text += " encoded";
    if (!accepts_encoding) refused_at_start = true;
  }
  if (s.chance(1, 12)) {
    std::string te = s.of<std::string>({"chunked", "gzip", "identity", "Identity"});
    r.headers.push_back({"Transfer-Encoding", te});
    *text += " te:" + te;
    if (te[0] == 'c' || te[0] == 'g') refused_at_start = true;
  }
  size_t announced = r.body.size();
  bool has_length = false;
  switch (s.weighted({5, 5, 2, 2, 1})) {
    case 0: break;
    case 1: has_length = true; break;
    case 2: has_length = true; announced += s.urange(1, 5); break;
    case 3:
      has_length = true;
      if (announced > 0) announced -= s.urange(1, announced < 5 ? announced : 5);
      break;
    default: {
      std::string bad = s.of<std::string>({"", "x", "-1", "1x", "99999999999999999999", "0x10", "1.5", "-9223372036854775808"});
      r.headers.push_back({"Content-Length", bad});
      *text += " length '" + bad + "'";
      refused_at_start = true;
    }
  }
  if (has_length) {
    r.headers.push_back({s.of<std::string>({"Content-Length", "content-length"}), std::to_string(announced)});
    *text += " announced " + std::to_string(announced);
    if (announced != r.body.size()) w->error = true;
  }
  if (refused_at_start) w->error = true;
  switch (s.weighted({8, 1, 1})) {
    case 0: break;
    case 1:
      r.fail = Reply::kBeforeHeaders;
      r.error = AnyError(s);
      w->error = true;
      w->code = r.error.code();
      *text += " lost early";
      break;
    default:
      r.fail = Reply::kDuringBody;
      r.fail_after = s.draw(4);
      r.error = AnyError(s);
      w->error = true;
      *text += " lost in body";
      if (!refused_at_start && !(has_length && announced < r.body.size())) w->code = r.error.code();
  }
  if (r.fail != Reply::kBeforeHeaders && refused_at_start) w->code = absl::StatusCode::kUnknown;
  w->body = r.body;
  return r;
}

void CheckResult(const absl::StatusOr<InMemoryHttpResponse>& got, const Want& w, const std::string& at) {
  if (w.error) {
    PBT_CHECK(!got.ok(), at + ": a response came back although the exchange failed");
    if (w.code != absl::StatusCode::kUnknown) {
      PBT_EQ(int(got.status().code()), int(w.code), at + ": error code");
    }
    return;
  }
  PBT_CHECK(got.ok(), at + ": a complete response was lost: " + got.status().ToString());
  PBT_EQ(got->code, w.http, at + ": code");
  PBT_CHECK(std::string(got->body) == w.body, at + ": body differs");
  PBT_EQ(got->content_encoding, w.encoding, at + ": encoding");
  PBT_EQ(got->content_type, w.type, at + ": type");
}

void Responses(Src& s, Case& c) {
  Run run;
  fakes::Http http;
  http.read_size = [&s] { return int64_t(s.urange(1, 300)); };
  http.pick = [&s](size_t n) { return size_t(s.draw(n)); };
  int n = s.urange(1, 5);
  std::vector<std::unique_ptr<HttpRequest>> reqs;
  std::vector<Reply> replies(n);
  std::vector<Want> wants(n);
  std::vector<std::string> bodies(n);
  int64_t up = s.draw(10), down = s.draw(10), up0 = up, down0 = down;
  int faults = 0;
  for (int i = 0; i < n; ++i) {
    bool accept = s.chance(1, 3);
    HeaderList h;
    if (accept) h.push_back({s.of<std::string>({"Accept-Encoding", "accept-encoding"}), "br"});
    bool post = s.flip();
    bodies[i] = post ? Body(s) : "";
    auto r = InMemoryHttpRequest::Create("https://h/" + std::to_string(i), post ? Method::kPost : Method::kGet, h, bodies[i], false);
    PBT_CHECK(r.ok(), "request");
    reqs.push_back(std::move(*r));
    std::string text;
    replies[i] = MakeReply(s, accept, &wants[i], &text);
    faults += wants[i].error;
    c.log << "[" << text << "] ";
  }
  // Interruptions: before the start, or while one request cannot finish.
  int mode = s.weighted({7, 1, 1, 1});
  int hang = s.draw(n);
  if (mode == 1) run.abort = true;
  if (mode == 2) replies[hang].fail = Reply::kHang;
  if (mode == 3) {
    replies[hang].fail = Reply::kHangInBody;
    replies[hang].fail_after = s.draw(3);
    // It must get that far without being refused first.
    replies[hang].headers.clear();
  }
  bool perform_fails = mode == 0 && s.chance(1, 15);
  if (perform_fails) http.perform_error = AnyError(s);
  if (mode) c.log << "interrupted(" << mode << "," << hang << ")";
  http.handler = [&](const Seen& q) {
    int i = std::stoi(q.uri.substr(10));
    if (mode >= 2 && i == hang) run.abort = true;
    return replies[i];
  };
  bool accs = s.chance(4, 5);
  bool single = n == 1 && s.flip();
  absl::StatusOr<std::vector<absl::StatusOr<InMemoryHttpResponse>>> got;
  if (single) {
    auto one = PerformRequestInMemory(http, run.runner, std::move(reqs[0]), accs ? &down : nullptr, accs ? &up : nullptr);
    if (mode || perform_fails) {
      got = one.status();
    } else {
      std::vector<absl::StatusOr<InMemoryHttpResponse>> v;
      v.push_back(std::move(one));
      got = std::move(v);
    }
  } else {
    got = PerformMultipleRequestsInMemory(http, run.runner, std::move(reqs), accs ? &down : nullptr, accs ? &up : nullptr);
  }
  PBT_CHECK(http.misuse.empty(), http.misuse);
  c.nontrivial(n > 1 || faults || mode);
  int64_t su = 0, sd = 0;
  for (auto& q : http.seen) {
    int i = std::stoi(q.uri.substr(10));
    su += replies[i].sent;
    sd += replies[i].received;
    PBT_CHECK(q.body == bodies[i], "request body changed");
  }
  if (accs) {
    PBT_EQ(up, up0 + su, "bytes sent");
    PBT_EQ(down, down0 + sd, "bytes received");
  }
  if (mode) {
    c.label(mode == 1 ? "interrupted before" : "interrupted during");
    PBT_CHECK(!got.ok() && got.status().code() == absl::StatusCode::kCancelled, "an interrupted exchange did not report cancellation");
    if (mode == 1) PBT_EQ(http.batches, 0, "requests were made after the interruption");
    return;
  }
  PBT_EQ(http.batches, 1, "one joint call");
  if (perform_fails) {
    PBT_CHECK(!got.ok(), "the failure of the joint call was lost");
    PBT_EQ(int(got.status().code()), int(http.perform_error.code()), "code");
    return;
  }
  PBT_CHECK(got.ok(), "joint call: " + got.status().ToString());
  PBT_EQ(got->size(), size_t(n), "number of results");
  for (int i = 0; i < n; ++i) CheckResult((*got)[i], wants[i], "request " + std::to_string(i));
  c.label(faults == 0 ? "all complete" : faults == n ? "all failed" : "mixed");
}

// A cache that may forget, fail, or hold damaged data.
class Cache : public fcp::client::cache::ResourceCache {
 public:
  absl::Status Put(absl::string_view id, const absl::Cord& r, const google::protobuf::Any& m, absl::Duration age) override {
    puts.push_back(std::string(id));
    ages.push_back(age);
    if (fail_put) return absl::InternalError("put");
    data[std::string(id)] = {r, m};
    return absl::OkStatus();
  }
  absl::StatusOr<ResourceAndMetadata> Get(absl::string_view id, std::optional<absl::Duration> age) override {
    gets.push_back(std::string(id));
    get_ages.push_back(age);
    if (fail_get) return absl::InternalError("get");
    auto it = data.find(std::string(id));
    if (it == data.end()) return absl::NotFoundError("none");
    return it->second;
  }
  std::map<std::string, ResourceAndMetadata> data;
  std::vector<std::string> puts, gets;
  std::vector<absl::Duration> ages;
  std::vector<std::optional<absl::Duration>> get_ages;
  bool fail_put = false, fail_get = false;
};

void Fetch(Src& s, Case& c) {
  Run run;
  fakes::Http http;
  http.pick = [&s](size_t n) { return size_t(s.draw(n)); };
  Cache cache;
  bool use_cache = s.chance(3, 4);
  // What the server holds; a resource may be served compressed.
  struct Res {
    std::string content;
    bool gz;
    int fail;  // 0 fine, 1 corrupt gzip, 2 error, 3 wrong length
    std::string type;
    size_t cut = 0;
  };
  std::vector<Res> server;
  int nserver = s.urange(1, 4);
  for (int i = 0; i < nserver; ++i) {
    Res r;
    r.content = Body(s);
    r.gz = s.flip();
    r.type = r.gz ? s.of<std::string>({"application/octet-stream+gzip", "a/b+gzip", "A/B+GZIP"})
                  : s.of<std::string>({"application/octet-stream", "", "a/b"});
    r.fail = s.weighted({6, 1, 1, 1});
    if (r.fail == 1 && !r.gz) r.fail = 0;
    server.push_back(r);
  }
  auto wire = [&](const Res& r) {
    std::string w = r.gz ? Gzip(r.content) : r.content;
    if (r.fail == 1) w = w.substr(0, w.size() / 2);
    return w;
  };
  http.handler = [&](const Seen& q) {
    int i = std::stoi(q.uri.substr(12));
    const Res& r = server[i];
    Reply p;
    p.sent = 10 + i;
    p.received = 100 + i;
    if (!r.type.empty()) p.headers.push_back({"Content-Type", r.type});
    p.body = wire(r);
    p.pieces = {3, 5};
    if (r.fail == 2) p.code = 404;
    if (r.fail == 3) p.headers.push_back({"Content-Length", std::to_string(p.body.size() + 1)});
    return p;
  };
  int rounds = s.urange(1, 3);
  int hits = 0, fetched = 0;
  for (int round = 0; round < rounds; ++round) {
    cache.fail_get = s.chance(1, 6);
    cache.fail_put = s.chance(1, 6);
    if (!cache.data.empty() && s.chance(1, 5)) {
      // Damage a cached entry: its data or its description.
      auto it = cache.data.begin();
      std::advance(it, s.draw(cache.data.size()));
      google::protobuf::Any odd;
      if (s.flip()) {
        odd.set_type_url("type.googleapis.com/other");
        it->second.metadata = odd;
        c.log << " odd-metadata";
      } else {
        HttpResourceMetadata m;
        if (it->second.metadata.UnpackTo(&m) && m.compression_format() == RESOURCE_COMPRESSION_FORMAT_GZIP) {
          it->second.resource = it->second.resource.Subcord(0, it->second.resource.size() / 2);
          c.log << " cut-cache";
        }
      }
    }
    int n = s.urange(0, 5);
    std::vector<UriOrInlineData> list;
    struct Exp {
      bool error;
      std::string body;
      bool from_server;
      int idx;
    };
    std::vector<Exp> want;
    size_t gets0 = cache.gets.size(), puts0 = cache.puts.size();
    std::vector<std::string> want_requests;
    std::map<std::string, int> want_put;
    bool bad_uri = false;
    auto before = cache.data;
    for (int i = 0; i < n; ++i) {
      switch (s.weighted({4, 2, 2, 1})) {
        case 0: {  // from the server
          int k = s.draw(nserver);
          std::string id = s.chance(2, 3) ? "id" + std::to_string(k) : "";
          std::string uri = "https://srv/" + std::to_string(k);
          list.push_back(UriOrInlineData::CreateUri(uri, id, absl::Seconds(60 + k)));
          bool hit = false;
          if (use_cache && !id.empty() && !cache.fail_get) {
            auto it = before.find(id);
            HttpResourceMetadata m;
            if (it != before.end() && it->second.metadata.UnpackTo(&m)) {
              if (m.compression_format() == RESOURCE_COMPRESSION_FORMAT_GZIP) {
                hit = fcp::UncompressWithGzip(std::string(it->second.resource)).ok();
              } else {
                hit = true;
              }
            }
          }
          c.log << " srv" << k << (hit ? "(cached)" : "");
          const Res& r = server[k];
          if (hit) {
            hits++;
            want.push_back({false, r.content, false, k});
          } else {
            fetched++;
            want_requests.push_back(uri);
            want.push_back({r.fail != 0, r.content, true, k});
            if (use_cache && !id.empty() && r.fail != 2 && r.fail != 3) want_put[id]++;
          }
          break;
        }
        case 1: {
          std::string b = Body(s);
          list.push_back(UriOrInlineData::CreateInlineData(absl::Cord(b), UriOrInlineData::InlineData::CompressionFormat::kUncompressed));
          want.push_back({false, b, false, 0});
          c.log << " inline";
          break;
        }
        case 2: {
          std::string b = Body(s);
          std::string z = Gzip(b);
          bool cut = s.chance(1, 4);
          if (cut) z = z.substr(0, 1 + s.draw(z.size() - 1));
          list.push_back(UriOrInlineData::CreateInlineData(absl::Cord(z), UriOrInlineData::InlineData::CompressionFormat::kGzip));
          want.push_back({cut, b, false, 0});
          c.log << (cut ? " inline-cut" : " inline-gz");
          break;
        }
        default:
          if (s.chance(1, 6)) {
            list.push_back(UriOrInlineData::CreateUri("http://plain/0", "", absl::ZeroDuration()));
            want.push_back({true, "", false, 0});
            bad_uri = true;
            c.log << " plain-http";
          } else {
            list.push_back(UriOrInlineData::CreateInlineData(absl::Cord(), UriOrInlineData::InlineData::CompressionFormat::kUncompressed));
            want.push_back({false, "", false, 0});
            c.log << " empty";
          }
      }
    }
    c.log << ";";
    size_t seen0 = http.seen.size();
    int64_t up = 0, down = 0;
    auto got = FetchResourcesInMemory(http, run.runner, list, &down, &up, use_cache ? &cache : nullptr);
    PBT_CHECK(http.misuse.empty(), http.misuse);
    std::vector<std::string> requested;
    int64_t su = 0, sd = 0;
    for (size_t i = seen0; i < http.seen.size(); ++i) {
      requested.push_back(http.seen[i].uri);
      int k = std::stoi(http.seen[i].uri.substr(12));
      su += 10 + k;
      sd += 100 + k;
      PBT_CHECK(http.seen[i].method == Method::kGet, "resource fetched with another method");
      PBT_CHECK(http.seen[i].body.empty(), "resource fetched with a body");
    }
    PBT_EQ(up, su, "bytes sent");
    PBT_EQ(down, sd, "bytes received");
    if (bad_uri) {
      PBT_CHECK(!got.ok(), "an insecure address was accepted");
      PBT_EQ(requested.size(), size_t(0), "requests made in a refused fetch");
      continue;
    }
    PBT_CHECK(got.ok(), "fetch: " + got.status().ToString());
    PBT_EQ(got->size(), list.size(), "number of results");
    PBT_CHECK(requested == want_requests, "other requests were made than needed");
    for (size_t i = 0; i < list.size(); ++i) {
      std::string at = "resource " + std::to_string(i) + " of round " + std::to_string(round);
      const auto& g = (*got)[i];
      if (want[i].error) {
        PBT_CHECK(!g.ok(), at + ": data came back although it could not be obtained");
      } else {
        PBT_CHECK(g.ok(), at + ": " + g.status().ToString());
        PBT_CHECK(std::string(g->body) == want[i].body, at + ": other data than the resource");
        PBT_EQ(g->code, 200, at + ": code");
      }
    }
    std::map<std::string, int> put;
    for (size_t i = puts0; i < cache.puts.size(); ++i) {
      put[cache.puts[i]]++;
      PBT_CHECK(cache.ages[i] == absl::Seconds(60 + std::stoi(cache.puts[i].substr(2))), "stored with another age");
    }
    PBT_CHECK(put == want_put, "stored in the cache: other resources than those fetched for it");
    for (size_t i = gets0; i < cache.gets.size(); ++i) {
      PBT_CHECK(cache.get_ages[i].has_value() && *cache.get_ages[i] == absl::Seconds(60 + std::stoi(cache.gets[i].substr(2))), "looked up with another age");
    }
  }
  c.nontrivial(hits > 0 || fetched > 1);
  if (hits) c.label("cache hit");
}

std::string Decode(const std::string& s) {
  std::string o;
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] != '%') {
      o += s[i];
      continue;
    }
    PBT_CHECK(i + 2 < s.size() && isxdigit((unsigned char)s[i + 1]) && isxdigit((unsigned char)s[i + 2]), "not a percent encoding: " + pbt::Quote(s));
    o += char(std::stoi(s.substr(i + 1, 2), nullptr, 16));
    i += 2;
  }
  return o;
}

void Addresses(Src& s, Case& c) {
  std::string in;
  int n = s.weighted({1, 6}) == 0 ? 0 : s.urange(1, 14);
  bool ascii = true;
  for (int i = 0; i < n; ++i) {
    int ch = s.weighted({10, 2}) == 0 ? s.of<int>({'a', 'Z', '0', '/', '%', '?', '#', ' ', '-', '_', '.', '~', ':', '&', '=', '$', '+', '\\', '"', '*'}) : int(s.draw(s.chance(1, 20) ? 256 : 128));
    in += char(ch);
    if (ch >= 128) ascii = false;
  }
  c.log << pbt::Quote(in);
  auto one = EncodeUriSinglePathSegment(in);
  auto many = EncodeUriMultiplePathSegments(in);
  auto up = CreateByteStreamUploadUriSuffix(in);
  c.nontrivial(n > 1);
  if (!ascii) {
    PBT_CHECK(!one.ok() && !many.ok() && !up.ok(), "non-ASCII text was encoded");
    c.label("non-ascii");
  } else {
    PBT_CHECK(one.ok() && many.ok() && up.ok(), "ASCII text was refused");
    auto unreserved = [](char ch) { return isalnum((unsigned char)ch) || strchr("-_.~", ch); };
    for (char ch : *one) PBT_CHECK(ch && (unreserved(ch) || ch == '%'), "unescaped in one segment: " + *one);
    for (char ch : *many) PBT_CHECK(ch && (unreserved(ch) || ch == '%' || ch == '/'), "unescaped in segments: " + *many);
    PBT_EQ(Decode(*one), in, "decoding one segment");
    PBT_EQ(Decode(*many), in, "decoding segments");
    PBT_EQ(std::count(many->begin(), many->end(), '/'), std::count(in.begin(), in.end(), '/'), "segment boundaries");
    for (char ch : in) {
      if (unreserved(ch)) continue;
      c.label("escapes");
      break;
    }
    PBT_EQ(*up, "/upload/v1/media/" + *many, "upload address");
  }
  std::string base = "https://" + s.ident(4) + std::string(s.draw(3) == 0 ? "" : "/" + s.ident(3)) + (s.flip() ? "/" : "");
  std::string suffix = s.weighted({1, 4, 1}) == 0 ? "" : "/" + s.str(6, "a/:?=");
  if (s.chance(1, 8)) suffix = s.str(5, "ab?") + "x";
  auto j = JoinBaseUriWithSuffix(base, suffix);
  bool valid = suffix.empty() || suffix[0] == '/';
  if (!valid) {
    PBT_CHECK(j.status().code() == absl::StatusCode::kInvalidArgument, "a suffix without a leading slash was accepted");
    return;
  }
  PBT_CHECK(j.ok(), "join failed");
  std::string b = base.back() == '/' ? base.substr(0, base.size() - 1) : base;
  PBT_EQ(*j, b + "/" + (suffix.empty() ? "" : suffix.substr(1)), "joined address");
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C07",
                   "a request with a body or a refused one; several exchanges, a faulty or an interrupted one; a fetch with a cache hit or several downloads; an address of more than one character",
                   {{"requests", Requests, 6000, 100000},
                    {"responses", Responses, 8000, 100000},
                    {"fetch", Fetch, 6000, 80000},
                    {"addresses", Addresses, 20000, 300000}});
}
