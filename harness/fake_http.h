// An HTTP client whose server is a function of the harness. It keeps the
// contract of HttpClient: callbacks in order, none after an error, requests
// performed once, cancelled requests reported as such.
#ifndef VERIF_FAKE_HTTP_H_
#define VERIF_FAKE_HTTP_H_

#include <condition_variable>
#include <cstdint>
#include <functional>
#include <memory>
#include <mutex>
#include <string>
#include <utility>
#include <vector>

#include "absl/status/status.h"
#include "absl/strings/match.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/http/http_client_util.h"

namespace fakes {

namespace fh = ::fcp::client::http;

struct Seen {
  std::string uri;
  fh::HttpRequest::Method method;
  fh::HeaderList headers;
  bool has_body = false;
  std::string body;
  int batch = 0;  // which PerformRequests call

  std::string Header(const std::string& name) const {
    auto v = fh::FindHeader(headers, name);
    return v ? *v : "";
  }
  int Count(const std::string& name) const {
    int n = 0;
    for (auto& h : headers) n += absl::EqualsIgnoreCase(h.first, name);
    return n;
  }
};

struct Reply {
  enum Fail { kNone, kBeforeHeaders, kDuringBody, kHang, kHangInBody };
  int code = 200;
  fh::HeaderList headers;
  std::string body;
  std::vector<size_t> pieces;  // sizes of the leading pieces
  Fail fail = kNone;
  absl::Status error = absl::UnavailableError("lost");
  size_t fail_after = 0;  // pieces delivered before the failure
  int64_t sent = 0, received = 0;
};

class Http : public fh::HttpClient {
 public:
  using Handler = std::function<Reply(const Seen&)>;

  class Response : public fh::HttpResponse {
   public:
    explicit Response(const Reply& r) : code_(r.code), headers_(r.headers) {}
    int code() const override { return code_; }
    const fh::HeaderList& headers() const override { return headers_; }

   private:
    int code_;
    fh::HeaderList headers_;
  };

  class Handle : public fh::HttpRequestHandle {
   public:
    Handle(Http* http, std::unique_ptr<fh::HttpRequest> r)
        : http_(http), request(std::move(r)) {}
    ~Handle() override {
      std::lock_guard<std::mutex> l(http_->mu_);
      if (active) http_->misuse = "handle deleted while being performed";
    }
    SentReceivedBytes TotalSentReceivedBytes() const override {
      std::lock_guard<std::mutex> l(http_->mu_);
      return {sent, received};
    }
    void Cancel() override {
      std::lock_guard<std::mutex> l(http_->mu_);
      cancelled = true;
      http_->cancels++;
      http_->cv_.notify_all();
    }

   private:
    friend class Http;
    Http* http_;
    std::unique_ptr<fh::HttpRequest> request;
    std::unique_ptr<Response> response;
    bool cancelled = false, performed = false, active = false;
    int64_t sent = 0, received = 0;
  };

  std::unique_ptr<fh::HttpRequestHandle> EnqueueRequest(
      std::unique_ptr<fh::HttpRequest> request) override {
    enqueued++;
    return std::make_unique<Handle>(this, std::move(request));
  }

  absl::Status PerformRequests(
      std::vector<std::pair<fh::HttpRequestHandle*, fh::HttpRequestCallback*>>
          requests) override {
    struct One {
      Handle* h;
      fh::HttpRequestCallback* cb;
      Reply reply;
      size_t piece = 0, at = 0;
      bool started = false;
    };
    int batch;
    {
      std::lock_guard<std::mutex> l(mu_);
      batch = batches++;
      for (auto& r : requests) {
        auto* h = static_cast<Handle*>(r.first);
        if (h->performed || h->cancelled) {
          return absl::InvalidArgumentError("reused or cancelled handle");
        }
      }
      if (!perform_error.ok()) return perform_error;
      for (auto& r : requests) {
        auto* h = static_cast<Handle*>(r.first);
        h->performed = h->active = true;
      }
    }
    std::vector<One> open;
    for (auto& r : requests) {
      auto* h = static_cast<Handle*>(r.first);
      Seen s;
      s.uri = std::string(h->request->uri());
      s.method = h->request->method();
      s.headers = h->request->extra_headers();
      s.has_body = h->request->HasBody();
      s.batch = batch;
      absl::Status read = absl::OkStatus();
      if (s.has_body) {
        while (true) {
          int64_t want = read_size ? read_size() : 65536;
          std::string buf(want, '\x5a');
          auto n = h->request->ReadBody(&buf[0], want);
          if (!n.ok()) {
            if (n.status().code() != absl::StatusCode::kOutOfRange) {
              read = n.status();
            } else if (buf != std::string(want, '\x5a')) {
              misuse = "buffer modified at the end of the data";
            }
            break;
          }
          if (*n < 1 || *n > want) {
            misuse = "ReadBody returned " + std::to_string(*n) + " of " +
                     std::to_string(want);
            break;
          }
          s.body.append(buf, 0, *n);
        }
      }
      if (!read.ok()) {
        r.second->OnResponseError(*h->request, read);
        std::lock_guard<std::mutex> l(mu_);
        h->active = false;
        continue;
      }
      One o{h, r.second, Reply{}, 0, 0, false};
      bool cancelled;
      {
        std::lock_guard<std::mutex> l(mu_);
        cancelled = h->cancelled;
      }
      if (!cancelled) {
        seen.push_back(s);
        o.reply = handler(s);
        std::lock_guard<std::mutex> l(mu_);
        h->sent = o.reply.sent;
        h->received = o.reply.received;
      }
      open.push_back(std::move(o));
    }
    while (!open.empty()) {
      // Requests that hang come last, so that what the others do does not
      // depend on when the cancellation arrives.
      std::vector<size_t> ready;
      for (size_t k = 0; k < open.size(); ++k) {
        if (!Hangs(open[k])) ready.push_back(k);
      }
      if (ready.empty()) {
        if (on_hang) on_hang();
        for (size_t k = 0; k < open.size(); ++k) ready.push_back(k);
      }
      size_t i = ready[pick ? pick(ready.size()) : 0];
      if (Step(open[i])) {
        {
          std::lock_guard<std::mutex> l(mu_);
          open[i].h->active = false;
        }
        open.erase(open.begin() + i);
      }
    }
    return absl::OkStatus();
  }

  Handler handler;
  std::function<int64_t()> read_size;     // sizes of body reads
  std::function<size_t(size_t)> pick;     // which open request moves next
  absl::Status perform_error = absl::OkStatus();
  std::function<void()> on_hang;          // nothing but hanging requests left
  std::vector<Seen> seen;
  std::string misuse;
  int batches = 0, enqueued = 0, cancels = 0;

 private:
  template <class One>
  static bool Hangs(const One& o) {
    if (o.reply.fail == Reply::kHang) return !o.started;
    return o.reply.fail == Reply::kHangInBody && o.started &&
           (o.piece == o.reply.fail_after || o.at == o.reply.body.size());
  }
  template <class One>
  bool Step(One& o) {
    auto wait = [&] {
      std::unique_lock<std::mutex> l(mu_);
      cv_.wait(l, [&] { return o.h->cancelled; });
    };
    bool cancelled;
    {
      std::lock_guard<std::mutex> l(mu_);
      cancelled = o.h->cancelled;
    }
    const Reply& r = o.reply;
    if (!o.started) {
      if (r.fail == Reply::kHang && !cancelled) {
        wait();
        cancelled = true;
      }
      if (cancelled) {
        o.cb->OnResponseError(*o.h->request, absl::CancelledError("cancelled"));
        return true;
      }
      if (r.fail == Reply::kBeforeHeaders) {
        o.cb->OnResponseError(*o.h->request, r.error);
        return true;
      }
      o.started = true;
      o.h->response = std::make_unique<Response>(r);
      return !o.cb->OnResponseStarted(*o.h->request, *o.h->response).ok();
    }
    bool at_failure = o.piece == r.fail_after || o.at == r.body.size();
    if (r.fail == Reply::kHangInBody && !cancelled && at_failure) {
      wait();
      cancelled = true;
    }
    if (cancelled) {
      o.cb->OnResponseBodyError(*o.h->request, *o.h->response,
                                absl::CancelledError("cancelled"));
      return true;
    }
    if (r.fail == Reply::kDuringBody && at_failure) {
      o.cb->OnResponseBodyError(*o.h->request, *o.h->response, r.error);
      return true;
    }
    if (o.at < r.body.size()) {
      size_t n = r.body.size() - o.at;
      if (o.piece < r.pieces.size() && r.pieces[o.piece] < n) {
        n = r.pieces[o.piece];
      }
      if (n == 0) n = 1;
      o.piece++;
      std::string data = r.body.substr(o.at, n);  // dies after the call
      o.at += n;
      return !o.cb->OnResponseBody(*o.h->request, *o.h->response, data).ok();
    }
    o.cb->OnResponseCompleted(*o.h->request, *o.h->response);
    return true;
  }

  std::mutex mu_;
  std::condition_variable cv_;
};

}  // namespace fakes
#endif  // VERIF_FAKE_HTTP_H_
