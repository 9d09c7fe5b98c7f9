// LIBS: fcp_curl pbt
// C08: the curl-based client against a scripted server on the loopback.
#include <arpa/inet.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <unistd.h>

#include <atomic>
#include <condition_variable>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "fcp/base/compression.h"
#include "fcp/client/http/curl/curl_api.h"
#include "fcp/client/http/curl/curl_http_client.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/http/http_client_util.h"
#include "pbt/pbt.h"

using namespace fcp::client::http;  // NOLINT
using fcp::client::http::curl::CurlApi;
using fcp::client::http::curl::CurlHttpClient;
using pbt::Case;
using pbt::Src;
using Method = HttpRequest::Method;
using Code = absl::StatusCode;

namespace {

// ---------------------------------------------------------------- server

struct Got {  // a request as the server received it
  std::string method, path;
  HeaderList headers;
  std::string body;
  bool complete = false;
};

struct Answer {
  std::vector<std::string> pieces;  // written one after the other
  bool close = true;                // then close, or keep the connection
  bool stall = false;               // then say nothing more
  bool early = false;               // answer before reading the body
};

class Server {
 public:
  Server() {
    fd_ = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (fd_ < 0 || bind(fd_, (sockaddr*)&a, sizeof a) || listen(fd_, 64)) {
      throw pbt::Discard{};
    }
    socklen_t n = sizeof a;
    getsockname(fd_, (sockaddr*)&a, &n);
    port = ntohs(a.sin_port);
    acceptor_ = std::thread([this] { Accept(); });
  }
  ~Server() {
    stop_ = true;
    shutdown(fd_, SHUT_RDWR);
    acceptor_.join();
    for (auto& t : conns_) t.join();
    close(fd_);
  }
  void WaitStalled() {
    std::unique_lock<std::mutex> l(mu);
    cv_.wait(l, [&] { return stalled > 0; });
  }
  int port = 0;
  std::map<std::string, Answer> answers;  // by path; fixed before use
  std::mutex mu;
  std::vector<Got> got;
  int stalled = 0;

 private:
  void Accept() {
    while (!stop_) {
      pollfd p{fd_, POLLIN, 0};
      if (poll(&p, 1, 20) <= 0) continue;
      int c = accept(fd_, nullptr, nullptr);
      if (c < 0) continue;
      int one = 1;
      setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      conns_.emplace_back([this, c] { Serve(c); close(c); });
    }
  }
  bool Fill(int c, std::string* buf) {
    while (!stop_) {
      pollfd p{c, POLLIN, 0};
      if (poll(&p, 1, 20) == 0) continue;
      char b[4096];
      ssize_t n = recv(c, b, sizeof b, 0);
      if (n <= 0) return false;
      buf->append(b, n);
      return true;
    }
    return false;
  }
  bool Line(int c, std::string* buf, std::string* line) {
    size_t e;
    while ((e = buf->find("\r\n")) == std::string::npos) {
      if (!Fill(c, buf)) return false;
    }
    *line = buf->substr(0, e);
    buf->erase(0, e + 2);
    return true;
  }
  bool Take(int c, std::string* buf, size_t n, std::string* out) {
    while (buf->size() < n) {
      if (!Fill(c, buf)) {
        *out += *buf;
        return false;
      }
    }
    *out += buf->substr(0, n);
    buf->erase(0, n);
    return true;
  }
  void Serve(int c) {
    std::string buf;
    while (true) {
      Got g;
      std::string line;
      if (!Line(c, &buf, &line)) return;
      auto a = line.find(' '), b = line.rfind(' ');
      if (a == std::string::npos || b <= a) return;
      g.method = line.substr(0, a);
      g.path = line.substr(a + 1, b - a - 1);
      while (true) {
        if (!Line(c, &buf, &line)) return;
        if (line.empty()) break;
        auto k = line.find(':');
        std::string v = line.substr(k + 1);
        v.erase(0, v.find_first_not_of(' ') == std::string::npos ? v.size() : v.find_first_not_of(' '));
        g.headers.push_back({line.substr(0, k), v});
      }
      Answer ans;
      auto it = answers.find(g.path);
      if (it != answers.end()) ans = it->second;
      bool ok = true;
      auto expect = FindHeader(g.headers, "Expect");
      if (expect && *expect == "100-continue") {
        static const std::string go = "HTTP/1.1 100 Continue\r\n\r\n";
        (void)!send(c, go.data(), go.size(), MSG_NOSIGNAL);
      }
      if (!ans.early) {
        auto len = FindHeader(g.headers, "Content-Length");
        auto te = FindHeader(g.headers, "Transfer-Encoding");
        if (te && *te == "chunked") {
          while (true) {
            if (!Line(c, &buf, &line)) { ok = false; break; }
            size_t n = std::stoul(line, nullptr, 16);
            if (!Take(c, &buf, n, &g.body)) { ok = false; break; }
            if (!Line(c, &buf, &line)) { ok = false; break; }
            if (n == 0) break;
          }
        } else if (len) {
          ok = Take(c, &buf, std::stoul(*len), &g.body);
        }
      }
      g.complete = ok;
      {
        std::lock_guard<std::mutex> l(mu);
        got.push_back(g);
      }
      if (!ok) return;
      for (auto& p : ans.pieces) {
        size_t at = 0;
        while (at < p.size()) {
          ssize_t n = send(c, p.data() + at, p.size() - at, MSG_NOSIGNAL);
          if (n <= 0) return;
          at += n;
        }
        if (ans.pieces.size() > 1) std::this_thread::yield();
      }
      if (ans.stall) {
        {
          std::lock_guard<std::mutex> l(mu);
          stalled++;
          cv_.notify_all();
        }
        std::string rest;
        while (Fill(c, &rest)) {
        }
        return;
      }
      if (ans.close) {
        // Let the peer see what was sent rather than a reset.
        shutdown(c, SHUT_WR);
        std::string rest;
        while (Fill(c, &rest)) {
        }
        return;
      }
    }
  }

  int fd_;
  std::atomic<bool> stop_{false};
  std::thread acceptor_;
  std::vector<std::thread> conns_;
  std::condition_variable cv_;
};

// ---------------------------------------------------------------- client

class Request : public HttpRequest {
 public:
  absl::string_view uri() const override { return u; }
  Method method() const override { return m; }
  const HeaderList& extra_headers() const override { return h; }
  bool HasBody() const override { return !body.empty(); }
  absl::StatusOr<int64_t> ReadBody(char* buffer, int64_t requested) override {
    if (int(at) >= fail_at && fail_at >= 0) return fail;
    if (at == body.size()) return absl::OutOfRangeError("end");
    int64_t n = std::min<int64_t>(requested, body.size() - at);
    if (step > 0) n = std::min<int64_t>(n, step);
    if (fail_at >= 0) n = std::min<int64_t>(n, fail_at - at);
    memcpy(buffer, body.data() + at, n);
    at += n;
    return n;
  }
  std::string u, body;
  Method m = Method::kGet;
  HeaderList h;
  size_t at = 0;
  int64_t step = 0;
  int fail_at = -1;
  absl::Status fail;
};

struct Event {
  char kind;  // S E B X(body error) C
  Code code = Code::kOk;
};

class Callback : public HttpRequestCallback {
 public:
  absl::Status OnResponseStarted(const HttpRequest& q, const HttpResponse& r) override {
    std::function<void()> h;
    {
      std::lock_guard<std::mutex> l(mu);
      trace += 'S';
      if (&q != want) misuse = "another request object";
      code = r.code();
      headers = r.headers();
      h = cancel_at_start;
    }
    if (h) h();
    return fail_at_start ? absl::InternalError("mine") : absl::OkStatus();
  }
  void OnResponseError(const HttpRequest& q, const absl::Status& e) override {
    std::lock_guard<std::mutex> l(mu);
    trace += 'E';
    if (&q != want) misuse = "another request object";
    error = e;
  }
  absl::Status OnResponseBody(const HttpRequest& q, const HttpResponse&, absl::string_view d) override {
    std::function<void()> h;
    int k;
    {
      std::lock_guard<std::mutex> l(mu);
      trace += 'B';
      if (&q != want) misuse = "another request object";
      body.append(d.data(), d.size());
      k = pieces++;
      if (k == cancel_at_piece) h = cancel_in_body;
    }
    if (h) h();
    return k == fail_at_piece ? absl::InternalError("mine") : absl::OkStatus();
  }
  void OnResponseBodyError(const HttpRequest& q, const HttpResponse&, const absl::Status& e) override {
    std::lock_guard<std::mutex> l(mu);
    trace += 'X';
    if (&q != want) misuse = "another request object";
    error = e;
  }
  void OnResponseCompleted(const HttpRequest& q, const HttpResponse& r) override {
    std::lock_guard<std::mutex> l(mu);
    trace += 'C';
    if (&q != want) misuse = "another request object";
    if (r.code() != code || r.headers() != headers) misuse = "the response changed";
  }
  std::mutex mu;
  const HttpRequest* want = nullptr;
  std::string trace, body, misuse;
  int code = 0;
  HeaderList headers;
  absl::Status error;
  bool fail_at_start = false;
  int fail_at_piece = -1, cancel_at_piece = -1, pieces = 0;
  std::function<void()> cancel_at_start, cancel_in_body;
};

// ---------------------------------------------------------------- scripts

enum Ending {
  kComplete,      // everything was sent
  kNoResponse,    // the exchange ends before the final headers
  kTruncated,     // ends inside the body, noticeably
};

struct Plan {
  Ending ending = kComplete;
  int code = 200;
  HeaderList headers;  // as they must be reported
  std::string body;
  bool accept_given = false;
  bool body_read = true;  // the server reads the request's body
  Code read_fail = Code::kOk;
  int redirects = 0;
  std::string final_path, final_method;
  bool too_many = false;
  int mode = 0;  // 1 fail at start, 2 fail in body, 3 cancel at start, 4 cancel in body, 5 cancel while stalled
  std::string text;
};

std::string Body(Src& s) {
  switch (s.weighted({2, 5, 2, 1})) {
    case 0: return "";
    case 1: return s.bytes(30);
    case 2: return std::string(s.urange(1, 3000), 'q');
    default: {
      std::string b;
      uint64_t x = s.draw(0) | 1;
      int n = s.urange(10000, 60000);
      for (int i = 0; i < n; ++i) {
        x = x * 6364136223846793005ull + 1442695040888963407ull;
        b += char(x >> 56);
      }
      return b;
    }
  }
}

std::vector<std::string> Cut(Src& s, const std::string& all) {
  std::vector<std::string> out;
  size_t at = 0;
  int cuts = s.weighted({3, 1}) == 0 ? s.draw(2) : s.draw(9);
  for (int i = 0; i < cuts && at + 1 < all.size(); ++i) {
    size_t n = s.chance(1, 2) ? s.urange(1, 6) : s.urange(1, 200);
    n = std::min(n, all.size() - at - 1);
    if (n == 0) break;
    out.push_back(all.substr(at, n));
    at += n;
  }
  out.push_back(all.substr(at));
  return out;
}

std::string StatusLine(Src& s, int code) {
  return s.of<std::string>({"HTTP/1.1 ", "HTTP/1.1 "}) + std::to_string(code) +
         s.of<std::string>({" OK", "", " ", " Some: reason 301", " x y"}) + "\r\n";
}

// Builds the answers for one request under /<id>...
Plan MakePlan(Src& s, Server& srv, int id, Request* q) {
  Plan p;
  std::string path = "/" + std::to_string(id);
  q->u = absl::StrCat("http://localhost:", srv.port, path);
  q->m = s.of<Method>({Method::kGet, Method::kGet, Method::kPost, Method::kPost, Method::kPut, Method::kHead});
  bool upload = q->m == Method::kPost || q->m == Method::kPut;
  if (upload) {
    q->body = Body(s);
    q->step = s.flip() ? 0 : s.urange(1, 4000);
    if (q->step > 0 && q->step < 50 && q->body.size() > 5000) q->step = 0;
    if (!q->body.empty() && s.chance(2, 3)) q->h.push_back({s.of<std::string>({"Content-Length", "content-length"}), std::to_string(q->body.size())});
  }
  int nh = s.draw(3);
  for (int i = 0; i < nh; ++i) q->h.push_back({"X-Q" + std::to_string(i), s.ident(4) + (s.chance(1, 3) ? ": x, y=z" : "")});
  if (s.chance(1, 3)) q->h.push_back({s.of<std::string>({"Content-Type"}), "application/x-protobuf"});
  p.accept_given = s.chance(1, 3);
  if (p.accept_given) q->h.push_back({s.of<std::string>({"Accept-Encoding", "accept-encoding"}), s.of<std::string>({"gzip", "br", "identity"})});
  std::string& t = p.text;
  t += std::string(1, "HGPUTD"[int(q->m)]) + (upload ? std::to_string(q->body.size()) : "");

  p.final_path = path;
  static const char* names[] = {"HEAD", "GET", "POST", "PUT", "PATCH", "DELETE"};
  p.final_method = names[int(q->m)];

  // Reading the body of the request fails.
  if (upload && !q->body.empty() && s.chance(1, 12)) {
    q->fail_at = s.draw(q->body.size());
    q->fail = absl::Status(s.of<Code>({Code::kInternal, Code::kDataLoss, Code::kAborted}), "read");
    p.read_fail = q->fail.code();
    p.ending = kNoResponse;
    t += " readfail@" + std::to_string(q->fail_at);
    srv.answers[path] = Answer{{"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"}, true, false, false};
    return p;
  }

  // Redirects. Requests with a body are not redirected here: whether they can
  // be repeated depends on how much was already sent.
  if (q->m != Method::kPut && q->body.empty()) {
    p.redirects = s.weighted({4, 1, 1}) == 0 ? 0 : s.urange(1, 4);
    if (s.chance(1, 40)) {
      p.redirects = 1;
      p.too_many = true;
    }
  }
  for (int i = 0; i < p.redirects; ++i) {
    int code = upload ? s.of<int>({301, 302, 303}) : s.of<int>({301, 302, 303, 307, 308});
    std::string next = p.too_many ? p.final_path : path + "r" + std::to_string(i);
    std::string a = StatusLine(s, code);
    std::string loc = s.flip() ? next : absl::StrCat("http://localhost:", srv.port, next);
    bool before = s.flip();
    if (before) a += "Location: " + loc + "\r\n";
    a += "X-Redirect: yes\r\n";
    if (!before) a += s.of<std::string>({"location: ", "LOCATION:"}) + loc + "\r\n";
    std::string rb = s.chance(1, 2) ? "moved" : "";
    bool shut = s.flip();
    if (shut) a += "Connection: close\r\n";
    a += "Content-Length: " + std::to_string(rb.size()) + "\r\n\r\n";
    if (q->m != Method::kHead) a += rb;
    srv.answers[p.final_path] = Answer{Cut(s, a), shut, false, false};
    p.final_path = next;
    // A request without a body may turn into a GET when redirected.
    if (q->m == Method::kPost && code <= 302) p.final_method = "";
    if (q->m != Method::kGet && q->m != Method::kHead && (code == 303)) p.final_method = "";
    t += " ->" + std::to_string(code);
  }
  if (p.too_many) {
    p.ending = kNoResponse;
    t += " loop";
    return p;
  }

  std::string a;
  int info = s.weighted({6, 1}) == 0 ? 0 : s.urange(1, 2);
  for (int i = 0; i < info; ++i) {
    int code = s.of<int>({100, 102, 103});
    a += StatusLine(s, code) + (s.flip() ? "Link: </x>; rel=preload\r\n" : "") + "\r\n";
    t += " " + std::to_string(code);
  }
  p.code = s.weighted({5, 2}) == 0 ? 200 : s.of<int>({201, 204, 299, 300, 304, 305, 400, 401, 404, 418, 429, 500, 503, 599, 301, 302, 307});
  bool head = q->m == Method::kHead;
  bool bodyless = head || p.code == 204 || p.code == 304;
  if (!bodyless) p.body = Body(s);
  t += " " + std::to_string(p.code) + "/" + std::to_string(p.body.size());

  a += StatusLine(s, p.code);
  HeaderList sent;
  int n = s.draw(4);
  for (int i = 0; i < n; ++i) {
    std::string k = s.of<std::string>({"X-A", "x-b", "Content-Type", "Set-Cookie", "Date", "ETag"});
    std::string v = s.of<std::string>({"v", "", "a b", "text/html; charset=utf-8", "W/\"1\"", "12:34:56 GMT", "x,y"});
    sent.push_back({k, v});
  }
  std::string wire = p.body;
  bool gz = !bodyless && s.chance(1, 4);
  bool cut_gz = false;
  if (gz) {
    wire = std::string(*fcp::CompressWithGzip(p.body));
    sent.push_back({"Content-Encoding", "gzip"});
    t += " gz";
    if (p.accept_given) {
      p.body = wire;
    } else if (s.chance(1, 8) && wire.size() > 24) {
      wire[wire.size() - 8 + s.draw(4)] ^= 0x10;  // its checksum
      cut_gz = true;
      t += " badgz";
    }
  }
  int framing = s.weighted({4, 3, 2});
  if (bodyless) framing = head && s.flip() ? 0 : 3;
  size_t announced = bodyless ? s.draw(50) : wire.size();
  if (framing == 0) sent.push_back({s.of<std::string>({"Content-Length", "content-length"}), std::to_string(announced)});
  if (framing == 1) sent.push_back({s.of<std::string>({"Transfer-Encoding", "transfer-encoding"}), "chunked"});
  s.shuffle(&sent);
  for (auto& h : sent) {
    a += h.first + ":" + s.of<std::string>({" ", "", "  "}) + h.second + s.of<std::string>({"", " "}) + "\r\n";
    std::string k = h.first;
    for (char& ch : k) ch = tolower(ch);
    bool hidden = k == "transfer-encoding" || (!p.accept_given && (k == "content-encoding" || k == "content-length"));
    if (!hidden) p.headers.push_back(h);
  }
  size_t head_end = a.size() + 2;
  a += "\r\n";
  bool keep = false;
  if (framing == 0) {
    if (!bodyless) a += wire;
    keep = s.flip();
    t += " sized";
  } else if (framing == 1) {
    size_t at = 0;
    while (at < wire.size()) {
      size_t k = std::min<size_t>(wire.size() - at, s.chance(1, 3) ? s.urange(1, 10) : s.urange(1, 5000));
      a += absl::StrCat(absl::Hex(k), s.chance(1, 5) ? ";ext=1" : "", "\r\n", wire.substr(at, k), "\r\n");
      at += k;
      if (a.size() > 200000) { a += absl::StrCat(absl::Hex(wire.size() - at), "\r\n", wire.substr(at), "\r\n"); break; }
    }
    if (at < wire.size() && a.size() <= 200000) at = wire.size();
    a += "0\r\n";
    if (s.chance(1, 4)) {
      a += "X-Trailer: t\r\n";
      if (s.flip()) a += "Another: u\r\n";
      t += " trailer";
    }
    a += "\r\n";
    keep = s.flip();
    t += " chunked";
  } else if (framing == 3) {
    keep = p.code == 204 || p.code == 304 ? s.flip() : false;
  } else {
    a += wire;
    t += " toclose";
  }
  Answer ans;
  ans.close = !keep;
  if (cut_gz) p.ending = kTruncated;
  // The connection ends early.
  if (s.chance(1, 6)) {
    size_t cut = s.flip() ? s.draw(a.size()) : (a.size() > head_end ? head_end + s.draw(a.size() - head_end) : s.draw(a.size()));
    if (cut < head_end) {
      p.ending = kNoResponse;
    } else if (framing == 2 && !gz) {
      p.body = wire.substr(0, cut - head_end);  // cannot be told from the end
    } else if (framing == 2 && p.accept_given) {
      p.body = wire.substr(0, cut - head_end);
    } else if (framing == 2) {
      // Whether a compressed stream that just stops is noticed is left open.
      cut = a.size();
    } else {
      p.ending = kTruncated;
    }
    if (framing == 1 && cut >= a.size() - 2) {
      // Only the very last line end is missing; left open.
      cut = a.size();
      p.ending = cut_gz ? kTruncated : kComplete;
    }
    // Bodyless answers are complete with their headers.
    if (cut >= head_end && bodyless) p.ending = kComplete;
    if (cut < a.size()) {
      a = a.substr(0, cut);
      ans.close = true;
      t += " cut@" + std::to_string(cut);
    }
  } else if (s.chance(1, 60)) {
    a = s.of<std::string>({"garbage\r\n\r\n", "HTTP/1.1 abc\r\n\r\n", "\r\n\r\n", "HTTP/9\r\n"});
    p.ending = kNoResponse;
    ans.close = true;
    t += " garbage";
  }
  ans.pieces = Cut(s, a);
  // Cancelling and failing callbacks.
  if (p.ending == kComplete) {
    p.mode = s.weighted({20, 2, p.body.empty() ? 0u : 2u, 2, p.body.empty() ? 0u : 2u});
    if (p.mode) t += " mode" + std::to_string(p.mode);
  }
  if (getenv("C08_DUMP")) for (auto& x : ans.pieces) t += " {" + x + "}";
  srv.answers[p.final_path] = ans;
  return p;
}

bool SameHeaders(const HeaderList& got, const HeaderList& want) {
  if (got.size() != want.size()) return false;
  for (size_t i = 0; i < got.size(); ++i) {
    if (got[i].first != want[i].first) return false;
    if (got[i].second == want[i].second) continue;
    // Known: values are cut at their first colon.
    auto colon = want[i].second.find(':');
    if (colon == std::string::npos || got[i].second != want[i].second.substr(0, colon)) return false;
  }
  return true;
}

std::string Show(const HeaderList& h) {
  std::string o;
  for (auto& x : h) o += x.first + "=" + x.second + ";";
  return o;
}

void Check(const Plan& p, const Request& q, Callback& cb, Server& srv) {
  std::string at = " [" + p.text + " trace " + cb.trace.substr(0, 40) + "]";
  PBT_CHECK(cb.misuse.empty(), cb.misuse + at);
  std::string tr = cb.trace;
  size_t nb = std::count(tr.begin(), tr.end(), 'B');
  auto prefix = [&] { return p.body.compare(0, cb.body.size(), cb.body) == 0; };
  if (p.mode == 1) {
    PBT_EQ(tr, std::string("S"), "callbacks after the start was refused" + at);
  } else if (p.mode == 2) {
    PBT_EQ(tr, "S" + std::string(cb.fail_at_piece + 1, 'B'), "callbacks after a piece was refused" + at);
  } else if (p.mode == 3 || p.mode == 4) {
    PBT_EQ(std::count(tr.begin(), tr.end(), 'X'), 1, "cancelled after the start" + at);
    PBT_EQ(int(cb.error.code()), int(Code::kCancelled), "code of cancelling" + at);
    PBT_CHECK(tr[0] == 'S' && tr.find('C') == std::string::npos && tr.find('E') == std::string::npos && tr.find('S', 1) == std::string::npos, "callbacks of a cancelled request" + at);
    PBT_CHECK(prefix(), "body" + at);
  } else if (p.ending == kNoResponse) {
    PBT_EQ(tr, std::string("E"), "callbacks of an exchange without a response" + at);
    PBT_CHECK(!cb.error.ok(), "error without an error" + at);
    if (p.read_fail != Code::kOk) PBT_EQ(int(cb.error.code()), int(p.read_fail), "code of a failed read" + at);
    if (p.too_many) PBT_EQ(int(cb.error.code()), int(Code::kOutOfRange), "code of too many redirects" + at);
  } else {
    std::string want = "S" + std::string(nb, 'B') + (p.ending == kComplete ? "C" : "X");
    PBT_EQ(tr, want, "callbacks" + at);
    PBT_EQ(cb.code, p.code, "status code" + at);
    PBT_CHECK(SameHeaders(cb.headers, p.headers), "headers " + Show(cb.headers) + " instead of " + Show(p.headers) + at);
    if (p.ending == kComplete) {
      PBT_CHECK(cb.body == p.body, "body differs: " + std::to_string(cb.body.size()) + " of " + std::to_string(p.body.size()) + " bytes" + at);
    } else {
      PBT_CHECK(prefix(), "delivered bytes that were not sent" + at);
      PBT_CHECK(!cb.error.ok(), "error without an error" + at);
    }
  }
  if (p.mode || p.too_many || p.read_fail != Code::kOk) return;
  // What the server received: the request itself once, then the redirected.
  std::lock_guard<std::mutex> l(srv.mu);
  std::string first = q.u.substr(q.u.rfind('/'));
  int seen = 0;
  for (auto& g : srv.got) {
    bool is_first = g.path == first;
    if (!is_first && g.path != p.final_path) continue;
    if (is_first) seen++;
    for (auto& h : q.h) {
      if (absl::EqualsIgnoreCase(h.first, "content-length")) {
        if (is_first) {
          auto v = FindHeader(g.headers, h.first);
          PBT_CHECK(v && *v == h.second, "Content-Length of the request" + at);
        }
        continue;
      }
      if (!is_first) continue;
      int k = 0;
      for (auto& x : g.headers) k += absl::EqualsIgnoreCase(x.first, h.first) && x.second == h.second;
      PBT_EQ(k, 1, "request header " + h.first + ": " + h.second + at);
    }
    if (is_first) {
      int ae = 0;
      for (auto& x : g.headers) ae += absl::EqualsIgnoreCase(x.first, "Accept-Encoding");
      PBT_EQ(ae, 1, "Accept-Encoding headers" + at);
      if (!p.accept_given) {
        PBT_CHECK(absl::StrContains(*FindHeader(g.headers, "Accept-Encoding"), "gzip"), "gzip not offered" + at);
      }
      static const char* names[] = {"HEAD", "GET", "POST", "PUT", "PATCH", "DELETE"};
      PBT_EQ(g.method, std::string(names[int(q.m)]), "method" + at);
      PBT_CHECK(g.body == q.body, "request body differs" + at);
    } else if (!p.final_method.empty()) {
      PBT_EQ(g.method, p.final_method, "redirected method" + at);
    }
  }
  PBT_EQ(seen, 1, "times the request was made" + at);
}

void Exchanges(Src& s, Case& c) {
  Server srv;
  CurlApi api;
  CurlHttpClient client(&api);
  int threads = s.weighted({5, 1}) == 0 ? 1 : 2;
  int nontrivial = 0;
  struct One {
    Plan plan;
    const Request* q;
    Request copy;
    Callback cb;
    std::unique_ptr<HttpRequestHandle> handle;
  };
  std::vector<std::vector<std::unique_ptr<One>>> all(threads);
  int id = 0;
  for (auto& batch : all) {
    int n = s.urange(1, threads == 1 ? 4 : 2);
    for (int i = 0; i < n; ++i) {
      auto o = std::make_unique<One>();
      auto q = std::make_unique<Request>();
      o->plan = MakePlan(s, srv, id++, q.get());
      c.log << "[" << o->plan.text << "] ";
      if (o->plan.ending != kComplete || o->plan.mode || o->plan.redirects) nontrivial++;
      o->copy = *q;
      o->q = q.get();
      o->cb.want = q.get();
      o->handle = client.EnqueueRequest(std::move(q));
      auto* h = o->handle.get();
      if (o->plan.mode == 1) o->cb.fail_at_start = true;
      if (o->plan.mode == 2) o->cb.fail_at_piece = 0;
      if (o->plan.mode == 3) o->cb.cancel_at_start = [h] { h->Cancel(); };
      if (o->plan.mode == 4) o->cb.cancel_at_piece = 0, o->cb.cancel_in_body = [h] { h->Cancel(); };
      batch.push_back(std::move(o));
    }
  }
  std::vector<absl::Status> st(threads);
  auto go = [&](int t) {
    std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> v;
    for (auto& o : all[t]) v.push_back({o->handle.get(), &o->cb});
    st[t] = client.PerformRequests(v);
  };
  if (threads == 1) {
    go(0);
  } else {
    std::thread other([&] { go(1); });
    go(0);
    other.join();
  }
  c.nontrivial(nontrivial > 0 || id > 1);
  for (int t = 0; t < threads; ++t) {
    PBT_CHECK(st[t].ok(), "performing: " + st[t].ToString());
    for (auto& o : all[t]) {
      Check(o->plan, o->copy, o->cb, srv);
      if (o->plan.mode) c.label("stopped by the caller");
      else c.label(o->plan.ending == kComplete ? "complete" : o->plan.ending == kNoResponse ? "no response" : "truncated");
      if (o->plan.redirects) c.label("redirected");
      // The handle cannot be used twice, and later cancelling does nothing.
      std::string before = o->cb.trace;
      if (s.chance(1, 4)) o->handle->Cancel();
      if (s.chance(1, 4)) {
        absl::Status again = client.PerformRequests({{o->handle.get(), &o->cb}});
        PBT_CHECK(again.code() == Code::kInvalidArgument, "performing a request twice: " + again.ToString());
      }
      PBT_EQ(o->cb.trace, before, "callbacks after the end");
      auto b = o->handle->TotalSentReceivedBytes();
      PBT_CHECK(b.sent_bytes >= 0 && b.received_bytes >= 0, "negative byte counts");
    }
  }
}

// Cancelling before the start, and from another thread while waiting.
void Cancels(Src& s, Case& c) {
  Server srv;
  CurlApi api;
  CurlHttpClient client(&api);
  auto q = std::make_unique<Request>();
  Callback cb;
  cb.want = q.get();
  q->u = absl::StrCat("http://localhost:", srv.port, "/0");
  bool before = s.chance(1, 2);
  c.nontrivial(true);
  Answer a;
  a.stall = true;
  int where = s.draw(4);
  std::string body = s.bytes(20) + "x";
  std::string full = "HTTP/1.1 200 OK\r\nContent-Length: 1000\r\n\r\n" + body;
  std::string part = where == 0 ? "" : where == 1 ? "HTTP/1.1 200 OK\r\nCont" : where == 2 ? full.substr(0, full.size() - body.size()) : full;
  if (!part.empty()) a.pieces = {part};
  srv.answers["/0"] = a;
  auto h = client.EnqueueRequest(std::move(q));
  if (before) {
    c.log << "before";
    c.label("before");
    h->Cancel();
    if (s.flip()) h->Cancel();
    absl::Status st = client.PerformRequests({{h.get(), &cb}});
    PBT_CHECK(st.code() == Code::kInvalidArgument, "performing a cancelled request: " + st.ToString());
    std::lock_guard<std::mutex> l(srv.mu);
    PBT_EQ(srv.got.size(), size_t(0), "a cancelled request was sent");
    PBT_CHECK(cb.trace.find('S') == std::string::npos, "a cancelled request was answered");
    return;
  }
  c.log << "stalled at " << where;
  c.label("stalled");
  int times = s.urange(1, 3);
  std::thread t([&] {
    srv.WaitStalled();
    for (int i = 0; i < times; ++i) h->Cancel();
  });
  absl::Status st = client.PerformRequests({{h.get(), &cb}});
  t.join();
  PBT_CHECK(st.ok(), "performing: " + st.ToString());
  int errors = 0;
  for (char k : cb.trace) errors += k == 'E' || k == 'X';
  PBT_EQ(errors, 1, "errors reported for a cancelled request, trace " + cb.trace);
  PBT_EQ(int(cb.error.code()), int(Code::kCancelled), "code of cancelling");
  PBT_CHECK(cb.trace.find('C') == std::string::npos, "a cancelled request was completed");
  if (where < 2) PBT_EQ(cb.trace, std::string("E"), "callbacks of a cancelled request");
  std::string got = cb.body;
  PBT_CHECK(body.compare(0, got.size(), got) == 0, "body");
}

// Requests curl cannot make at all, and servers that are not there.
void Impossible(Src& s, Case& c) {
  Server srv;
  CurlApi api;
  CurlHttpClient client(&api);
  auto q = std::make_unique<Request>();
  Callback cb;
  cb.want = q.get();
  int kind = s.draw(3);
  c.log << kind;
  c.nontrivial(true);
  q->u = absl::StrCat("http://localhost:", srv.port, "/0");
  srv.answers["/0"] = Answer{{"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"}, true, false, false};
  if (kind == 0) {
    q->m = s.of<Method>({Method::kPatch, Method::kDelete});
    q->body = s.bytes(5);
  } else if (kind == 1) {
    // A port nobody listens on: bound, then released.
    int port;
    { Server other; port = other.port; }
    q->u = absl::StrCat("http://localhost:", port, "/0");
  } else {
    q->u = s.of<std::string>({"http://localhost:", "https://localhost:"}) + "99999/";
  }
  auto h = client.EnqueueRequest(std::move(q));
  absl::Status st = client.PerformRequests({{h.get(), &cb}});
  // Either way the caller learns of it and nothing is reported as a response.
  if (kind == 0 && cb.trace == "SC") {
    std::lock_guard<std::mutex> l(srv.mu);
    PBT_EQ(srv.got.size(), size_t(1), "requests");
    return;  // supported after all
  }
  PBT_CHECK(cb.trace == "E" || (!st.ok() && cb.trace.empty()), "callbacks of an impossible request: " + cb.trace);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C08",
                   "several requests, a redirected, failing, truncated or cancelled one",
                   {{"exchanges", Exchanges, 9000, 80000},
                    {"cancels", Cancels, 250, 2500},
                    {"impossible", Impossible, 60, 400}},
                   /*hang_is_violation=*/true, /*jobs=*/8, /*case_timeout_s=*/25);
}
