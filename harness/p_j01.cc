// LIBS: fcp_java pbt
// J01: the client that hands requests to Java, with the Java side running in a
// virtual machine of this process on a scripted network.
#include <dlfcn.h>
#include <jni.h>

#include <atomic>
#include <condition_variable>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>

#include "absl/strings/ascii.h"
#include "absl/strings/match.h"
#include "absl/strings/str_cat.h"
#include "fcp/base/compression.h"
#include "fcp/client/http/http_client.h"
#include "fcp/client/http/http_client_util.h"
#include "fcp/client/http/java/java_http_client.h"
#include "pbt/pbt.h"

using namespace fcp::client::http;  // NOLINT
using fcp::client::http::java::JavaHttpClient;
using pbt::Case;
using pbt::Src;
using Method = HttpRequest::Method;
using Code = absl::StatusCode;

// The virtual machine handles its own segmentation faults.
extern "C" const char* __asan_default_options() { return "handle_segv=0"; }

namespace {

// ---------------------------------------------------------------- machine

JavaVM* g_vm = nullptr;
jclass g_fake = nullptr;

class Env {
 public:
  Env() {
    if (g_vm->GetEnv(reinterpret_cast<void**>(&e_), JNI_VERSION_1_8) != JNI_OK) {
      g_vm->AttachCurrentThread(reinterpret_cast<void**>(&e_), nullptr);
      mine_ = true;
    }
    e_->PushLocalFrame(64);
  }
  ~Env() {
    e_->PopLocalFrame(nullptr);
    if (mine_) g_vm->DetachCurrentThread();
  }
  JNIEnv* operator->() { return e_; }
  JNIEnv* get() { return e_; }

 private:
  JNIEnv* e_ = nullptr;
  bool mine_ = false;
};

void Must(Env& e, const char* what) {
  if (e->ExceptionCheck()) {
    e->ExceptionDescribe();
    fprintf(stderr, "harness: %s failed in Java\n", what);
    abort();
  }
}

std::string Text(Env& e, jstring s) {
  const char* c = e->GetStringUTFChars(s, nullptr);
  std::string out = c;
  e->ReleaseStringUTFChars(s, c);
  return out;
}

jmethodID Static(Env& e, const char* name, const char* sig) {
  jmethodID id = e->GetStaticMethodID(g_fake, name, sig);
  Must(e, name);
  return id;
}

void StartMachine() {
  if (g_vm) return;
  std::string cp = absl::StrCat("-Djava.class.path=", VERIF_JAVA_CLASSES, ":/usr/share/java/guava.jar:/usr/share/java/jsr305.jar");
  JavaVMOption opts[] = {{const_cast<char*>(cp.c_str())}, {const_cast<char*>("-Xrs")}, {const_cast<char*>("-Xmx96m")},
                         {const_cast<char*>("-XX:+UseSerialGC")}, {const_cast<char*>("-XX:TieredStopAtLevel=1")},
                         {const_cast<char*>("-XX:-UsePerfData")}, {const_cast<char*>("-Xshare:auto")}};
  JavaVMInitArgs args{};
  args.version = JNI_VERSION_1_8;
  args.nOptions = sizeof(opts) / sizeof(opts[0]);
  args.options = opts;
  JNIEnv* env = nullptr;
  if (JNI_CreateJavaVM(&g_vm, reinterpret_cast<void**>(&env), &args) != JNI_OK) {
    fprintf(stderr, "harness: no virtual machine\n");
    abort();
  }
  Env e;
  g_fake = static_cast<jclass>(e->NewGlobalRef(e->FindClass("verif/Fake")));
  Must(e, "find");
  // The callbacks are in this program rather than in a library of their own.
  jclass cls = e->FindClass("com/google/fcp/client/http/HttpClientForNative");
  Must(e, "find");
  std::string list = Text(e, static_cast<jstring>(e->CallStaticObjectMethod(
                                 g_fake, Static(e, "natives", "(Ljava/lang/Class;)Ljava/lang/String;"), cls)));
  std::istringstream lines(list);
  std::string name, sig;
  while (lines >> name >> sig) {
    void* fn = dlsym(RTLD_DEFAULT, ("Java_com_google_fcp_client_http_HttpClientForNative_" + name).c_str());
    if (!fn) {
      fprintf(stderr, "harness: native method %s is missing\n", name.c_str());
      abort();
    }
    JNINativeMethod m{const_cast<char*>(name.c_str()), const_cast<char*>(sig.c_str()), fn};
    e->RegisterNatives(cls, &m, 1);
    Must(e, "register");
  }
}

struct Packer {
  std::string s;
  void Int(int32_t v) {
    for (int i = 3; i >= 0; --i) s.push_back(static_cast<char>(v >> (8 * i)));
  }
  void Str(const std::string& v) {
    Int(v.size());
    s += v;
  }
};

struct Unpacker {
  std::string s;
  size_t at = 0;
  int32_t Int() {
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v = v << 8 | static_cast<uint8_t>(s.at(at++));
    return static_cast<int32_t>(v);
  }
  std::string Str() {
    size_t n = Int();
    std::string out = s.substr(at, n);
    at += n;
    return out;
  }
};

// ---------------------------------------------------------------- requests

enum Point { kNone, kCreate, kOut, kWrite, kConnect, kCode, kIn, kRead };
const char* kPoints[] = {"-", "create", "out", "write", "connect", "code", "in", "read"};

std::mutex g_mu;
std::condition_variable g_cv;
bool g_performing = false;
int g_live = 0;  // request objects alive

struct Plan {
  int id = 0;
  std::string uri;
  // Request.
  Method method = Method::kGet;
  HeaderList headers;
  bool has_body = false;
  std::string body;
  int body_piece = 1;
  int read_fail = -1;
  Code read_code = Code::kInternal;
  // Answer.
  int code = 200;
  bool has_message = true;
  std::string message = "OK";
  HeaderList answer_headers;
  std::string payload;  // what the server means
  std::string wire;     // what it sends
  bool gzip = false, broken_gzip = false;
  int piece = 1;
  bool status_line = false, no_error_stream = false;
  // Faults and schedule.
  Point fail = kNone;
  int fail_nth = 0;
  bool fail_timeout = false;
  Point gate = kNone;
  int gate_nth = 0;
  bool gate_cancels = false, gate_stays = false;
  // Behaviour of the callback.
  bool started_fails = false;
  int body_fails = -1;
  enum Where { kNever, kInRead, kInStarted, kInBody, kInEnd } cancel_in = kNever, cancel_other_in = kNever;
  int cancel_nth = 0;
  int other = -1;
  bool linger = false;  // stay in the callback after cancelling

  bool explicit_encoding = false;
  bool invalid = false;
};

struct Run {
  Plan p;
  HttpRequestHandle* handle = nullptr;
  Run* other = nullptr;
  // What happened; under g_mu.
  std::vector<std::string> events;
  std::string problem;
  int in_callback = 0;
  std::thread::id callback_thread;
  bool started = false;
  bool ended = false;  // nothing may follow
  bool completed = false;
  bool gave_error = false;       // one of our methods returned an error
  bool cancelled_self = false;   // from within a callback, before the end
  bool cancelled_at_gate = false;
  bool cancelled_by_other = false;
  bool cancelled_unstarted = false;
  bool gate_cancel_called = false;
  bool left_early = false;  // the call returned while a callback ran
  Code end_code = Code::kOk;
  bool body_error = false;
  int answer_code = 0;
  HeaderList answer_headers;
  std::string got;
  int reads = 0, bodies = 0;
  size_t sent_at = 0;
  int script = -1;
};

void Problem(Run* r, const std::string& what) {
  if (r->problem.empty()) r->problem = what;
}

// Cancels as planned from within a callback. Without the lock.
void MaybeCancel(Run* r, Plan::Where where, int nth) {
  bool self = false, other = false;
  {
    std::lock_guard<std::mutex> l(g_mu);
    self = r->p.cancel_in == where && r->p.cancel_nth == nth;
    other = r->p.cancel_other_in == where && r->other != nullptr && nth == 0;
    if (self && !r->ended) r->cancelled_self = true;
    if (other) {
      r->other->cancelled_by_other = true;
      r->events.push_back(absl::StrCat("cancels ", r->other->p.id));
    }
    if (self) r->events.push_back("cancels itself");
  }
  if (other) {
    r->other->handle->Cancel();
    // One that has not begun by now cannot end in any other way.
    Env e;
    if (!e->CallStaticBooleanMethod(g_fake, Static(e, "begun", "(I)Z"), r->other->script)) {
      std::lock_guard<std::mutex> l(g_mu);
      r->other->cancelled_unstarted = true;
    }
  }
  if (self) {
    r->handle->Cancel();
    if (r->p.linger) {
      // The call must not return before this callback does.
      std::unique_lock<std::mutex> l(g_mu);
      g_cv.wait_for(l, std::chrono::milliseconds(40), [] { return !g_performing; });
      if (!g_performing) r->left_early = true;
    }
  }
}

class Scope {
 public:
  Scope(Run* r, const std::string& what) : r_(r) {
    std::lock_guard<std::mutex> l(g_mu);
    r->events.push_back(what);
    if (!g_performing) Problem(r, what + " outside of the call that performs the request");
    if (r->ended) Problem(r, what + " after the end of the request");
    if (r->gave_error) Problem(r, what + " after the callback had refused the response");
    if (r->in_callback > 0 && r->callback_thread != std::this_thread::get_id()) Problem(r, what + " while another callback runs");
    ++r->in_callback;
    r->callback_thread = std::this_thread::get_id();
  }
  ~Scope() {
    std::lock_guard<std::mutex> l(g_mu);
    --r_->in_callback;
  }

 private:
  Run* r_;
};

class Request : public HttpRequest {
 public:
  explicit Request(Run* r) : r_(r) {
    std::lock_guard<std::mutex> l(g_mu);
    ++g_live;
  }
  ~Request() override {
    std::lock_guard<std::mutex> l(g_mu);
    --g_live;
  }
  absl::string_view uri() const override { return r_->p.uri; }
  Method method() const override { return r_->p.method; }
  const HeaderList& extra_headers() const override { return r_->p.headers; }
  bool HasBody() const override { return r_->p.has_body; }
  absl::StatusOr<int64_t> ReadBody(char* buffer, int64_t requested) override {
    Scope s(r_, "read");
    int n;
    {
      std::lock_guard<std::mutex> l(g_mu);
      n = r_->reads++;
      if (!r_->p.has_body) Problem(r_, "a body was asked for that the request does not have");
      if (requested < 1) Problem(r_, "no bytes were asked for");
      if (r_->started) Problem(r_, "the body was read after the response had started");
    }
    MaybeCancel(r_, Plan::kInRead, n);
    std::lock_guard<std::mutex> l(g_mu);
    if (n == r_->p.read_fail) {
      return absl::Status(r_->p.read_code, "no more");
    }
    size_t left = r_->p.body.size() - r_->sent_at;
    if (left == 0) return absl::OutOfRangeError("end");
    size_t k = std::min<size_t>({left, static_cast<size_t>(requested), static_cast<size_t>(r_->p.body_piece)});
    memcpy(buffer, r_->p.body.data() + r_->sent_at, k);
    r_->sent_at += k;
    return static_cast<int64_t>(k);
  }

 private:
  Run* r_;
};

class Callback : public HttpRequestCallback {
 public:
  explicit Callback(Run* r) : r_(r) {}
  absl::Status OnResponseStarted(const HttpRequest& q, const HttpResponse& a) override {
    Scope s(r_, "started");
    Same(q);
    {
      std::lock_guard<std::mutex> l(g_mu);
      if (r_->started) Problem(r_, "the response started twice");
      r_->started = true;
      r_->answer_code = a.code();
      r_->answer_headers = a.headers();
    }
    MaybeCancel(r_, Plan::kInStarted, 0);
    std::lock_guard<std::mutex> l(g_mu);
    if (r_->p.started_fails) {
      r_->gave_error = true;
      return absl::InternalError("refused");
    }
    return absl::OkStatus();
  }
  void OnResponseError(const HttpRequest& q, const absl::Status& e) override {
    Scope s(r_, absl::StrCat("error ", absl::StatusCodeToString(e.code())));
    Same(q);
    {
      std::lock_guard<std::mutex> l(g_mu);
      if (r_->started) Problem(r_, "the response had started, yet the request failed as if not");
      End(e.code());
    }
    MaybeCancel(r_, Plan::kInEnd, 0);
  }
  absl::Status OnResponseBody(const HttpRequest& q, const HttpResponse& a, absl::string_view data) override {
    Scope s(r_, "body");
    Same(q);
    int n;
    {
      std::lock_guard<std::mutex> l(g_mu);
      if (!r_->started) Problem(r_, "data before the response started");
      if (data.empty()) Problem(r_, "empty data");
      if (a.code() != r_->answer_code) Problem(r_, "the code changed");
      n = r_->bodies++;
      r_->got += std::string(data);
    }
    MaybeCancel(r_, Plan::kInBody, n);
    std::lock_guard<std::mutex> l(g_mu);
    if (n == r_->p.body_fails) {
      r_->gave_error = true;
      return absl::InternalError("refused");
    }
    return absl::OkStatus();
  }
  void OnResponseBodyError(const HttpRequest& q, const HttpResponse& a, const absl::Status& e) override {
    Scope s(r_, absl::StrCat("body error ", absl::StatusCodeToString(e.code())));
    Same(q);
    {
      std::lock_guard<std::mutex> l(g_mu);
      if (!r_->started) Problem(r_, "the body failed before the response had started");
      r_->body_error = true;
      End(e.code());
    }
    MaybeCancel(r_, Plan::kInEnd, 0);
  }
  void OnResponseCompleted(const HttpRequest& q, const HttpResponse& a) override {
    Scope s(r_, "completed");
    Same(q);
    {
      std::lock_guard<std::mutex> l(g_mu);
      if (!r_->started) Problem(r_, "completed before the response had started");
      if (a.code() != r_->answer_code) Problem(r_, "the code changed");
      r_->completed = true;
      End(Code::kOk);
    }
    MaybeCancel(r_, Plan::kInEnd, 0);
  }

 private:
  void Same(const HttpRequest& q) {
    std::lock_guard<std::mutex> l(g_mu);
    if (q.uri() != r_->p.uri) Problem(r_, "the callback of another request was called");
  }
  void End(Code code) {
    if (code == Code::kOk && !r_->completed) Problem(r_, "an error without an error");
    r_->ended = true;
    r_->end_code = code;
  }
  Run* r_;
};

// ---------------------------------------------------------------- generation

std::string Cased(Src& s, const std::string& name) {
  int k = s.weighted({4, 1, 1});
  return k == 0 ? name : k == 1 ? absl::AsciiStrToLower(name) : absl::AsciiStrToUpper(name);
}

struct Settings {
  int pool = 0;
  bool patient = false;
  int connect_timeout = -1, read_timeout = -1;
  int request_chunk = 16, response_chunk = 16, gzip_buffer = 16;
  bool disconnect = true, accept_encoding = true;
  double ratio = 1;
};

std::string Gzip(const std::string& in) {
  auto c = fcp::CompressWithGzip(in);
  return c.ok() ? *c : "";
}

Plan MakePlan(Src& s, int id, int group_size, int place, const Settings& set) {
  Plan p;
  p.id = id;
  p.uri = absl::StrCat("https://host.example/", id);
  p.method = s.of({Method::kGet, Method::kPost, Method::kPut, Method::kPatch, Method::kDelete, Method::kHead});
  p.has_body = s.chance(1, 2);
  if (p.has_body) {
    p.body = s.chance(1, 6) ? std::string(s.range(0, 20000), 'b') : s.bytes(60);
    p.body_piece = s.of({1, 3, 8, 64, 100000});
    if (p.body.size() > 500 && p.body_piece < 8) p.body_piece = 64;
  }
  int n = s.small(0, 3);
  for (int i = 0; i < n; ++i) p.headers.push_back({"X-" + s.ident(2), s.ident(8)});
  if (s.chance(1, 4)) {
    p.headers.push_back({Cased(s, "Accept-Encoding"), s.of<std::string>({"gzip", "identity", "br, gzip"})});
    p.explicit_encoding = true;
    if (!set.accept_encoding) p.invalid = true;
  }
  if (p.has_body && s.flip()) {
    p.headers.push_back({Cased(s, "Content-Length"), absl::StrCat(p.body.size())});
  } else if (!p.has_body && s.chance(1, 6)) {
    p.headers.push_back({Cased(s, "Content-Length"), "0"});
  } else if (s.chance(1, 16)) {
    p.headers.push_back({Cased(s, "Content-Length"), s.of<std::string>({"many", "1x", ""})});
    p.invalid = true;
  } else if (!p.has_body && s.chance(1, 16)) {
    p.headers.push_back({Cased(s, "Content-Length"), "5"});
    p.invalid = true;
  }
  s.shuffle(&p.headers);
  if (p.has_body && s.chance(1, 10)) {
    p.read_fail = s.range(0, 3);
    p.read_code = s.of({Code::kInternal, Code::kNotFound, Code::kDataLoss, Code::kUnavailable});
  }

  p.code = s.of({200, 200, 200, 201, 204, 206, 304, 400, 404, 410, 500, 503});
  int msg = s.weighted({3, 1, 1});
  p.has_message = msg != 2;
  p.message = msg == 0 ? s.of<std::string>({"OK", "Not what you think"}) : "";
  p.status_line = s.flip();
  n = s.small(0, 3);
  for (int i = 0; i < n; ++i) {
    p.answer_headers.push_back({s.of<std::string>({"Set-Cookie", "ETag", "X-A", "x-b", "Content-Type", "Transfer-Encodin"}), s.ident(6)});
  }
  bool bodyless = p.method == Method::kHead || p.code == 204 || p.code == 304;
  p.payload = bodyless ? "" : s.chance(1, 6) ? std::string(s.range(0, 20000), 'a') : s.bytes(80);
  p.wire = p.payload;
  if (s.chance(1, 3) && (bodyless || !p.payload.empty())) {
    std::string how = s.of<std::string>({"gzip", "GZIP", "br"});
    p.answer_headers.push_back({Cased(s, "Content-Encoding"), how});
    if (how != "br") {
      p.gzip = true;
      if (!bodyless) {
        p.wire = Gzip(p.payload);
        if (s.chance(1, 6)) {
          p.wire.resize(s.range(1, p.wire.size() - 1));
          p.broken_gzip = true;
        }
      }
    }
  }
  if (s.chance(1, 5)) p.answer_headers.push_back({Cased(s, "Transfer-Encoding"), "chunked"});
  else if (s.chance(1, 2)) {
    p.answer_headers.push_back({Cased(s, "Content-Length"), s.chance(1, 6) ? "x" : absl::StrCat(p.wire.size())});
  }
  s.shuffle(&p.answer_headers);
  p.piece = s.of({1, 2, 7, 33, 100000});
  if (p.wire.size() > 500 && p.piece < 33) p.piece = 33;
  p.no_error_stream = p.code >= 400 && p.payload.empty() && s.flip();

  if (s.chance(1, 4)) {
    p.fail = static_cast<Point>(s.range(kCreate, kRead));
    p.fail_nth = p.fail == kWrite || p.fail == kRead ? s.small(0, 6) : 0;
    p.fail_timeout = s.chance(1, 3);
  }
  if (s.chance(1, 3)) {
    p.gate = static_cast<Point>(s.range(kCreate, kRead));
    p.gate_nth = p.gate == kWrite || p.gate == kRead ? s.small(0, 4) : 0;
    p.gate_cancels = s.chance(3, 4);
    // With a fixed number of threads the others would wait for it.
    p.gate_stays = p.gate_cancels && set.pool == 0 && s.flip();
  }
  p.started_fails = s.chance(1, 12);
  if (s.chance(1, 12)) p.body_fails = s.small(0, 3);
  if (s.chance(1, 6)) {
    p.cancel_in = static_cast<Plan::Where>(s.range(Plan::kInRead, Plan::kInEnd));
    p.cancel_nth = p.cancel_in == Plan::kInRead || p.cancel_in == Plan::kInBody ? s.small(0, 3) : 0;
    p.linger = s.chance(1, 4);
  }
  // Only later requests are cancelled by earlier ones: two that cancel each
  // other wait for each other. With a patient executor the very next one
  // holds its lock.
  int first = place + (set.patient ? 2 : 1);
  if (first < group_size && s.chance(set.patient ? 2 : 1, 3)) {
    p.cancel_other_in = static_cast<Plan::Where>(s.range(Plan::kInRead, Plan::kInEnd));
    p.other = s.range(first, group_size - 1);
  }
  return p;
}

std::string Show(const Plan& p) {
  std::string o = absl::StrCat("request ", p.id, ": method ", static_cast<int>(p.method), p.has_body ? absl::StrCat(" body ", p.body.size(), "/", p.body_piece) : "");
  for (auto& h : p.headers) absl::StrAppend(&o, " [", h.first, ": ", h.second, "]");
  if (p.read_fail >= 0) absl::StrAppend(&o, " read ", p.read_fail, " fails");
  absl::StrAppend(&o, " -> ", p.code, p.has_message ? " '" + p.message + "'" : " (no message)", " payload ", p.payload.size(), " wire ", p.wire.size(), "/", p.piece);
  for (auto& h : p.answer_headers) absl::StrAppend(&o, " [", h.first, ": ", h.second, "]");
  if (p.broken_gzip) o += " cut short";
  if (p.no_error_stream) o += " no error stream";
  if (p.fail) absl::StrAppend(&o, " fails at ", kPoints[p.fail], "#", p.fail_nth, p.fail_timeout ? " (timeout)" : "");
  if (p.gate) absl::StrAppend(&o, " gate at ", kPoints[p.gate], "#", p.gate_nth, p.gate_cancels ? " cancels" : "", p.gate_stays ? " and stays" : "");
  if (p.started_fails) o += " refuses the start";
  if (p.body_fails >= 0) absl::StrAppend(&o, " refuses body ", p.body_fails);
  if (p.cancel_in) absl::StrAppend(&o, " cancels itself in ", p.cancel_in, "#", p.cancel_nth, p.linger ? " and lingers" : "");
  if (p.other >= 0) absl::StrAppend(&o, " cancels ", p.other, " of the group in ", p.cancel_other_in);
  return o + "\n";
}

std::multiset<std::pair<std::string, std::string>> Bag(const HeaderList& h) {
  return {h.begin(), h.end()};
}

const char* MethodName(Method m) {
  switch (m) {
    case Method::kHead: return "HEAD";
    case Method::kGet: return "GET";
    case Method::kPost: return "POST";
    case Method::kPut: return "PUT";
    case Method::kPatch: return "PATCH";
    default: return "DELETE";
  }
}

size_t HeaderSize(const HeaderList& h) {
  size_t n = 0;
  for (auto& x : h) n += x.first.size() + x.second.size();
  return n;
}

// What the network saw.
struct Seen {
  int created = 0;
  std::string problems;
  bool failed = false, connection = false;
  std::string method;
  HeaderList properties;
  bool input = false, output = false;
  int fixed = -1, chunked = -1;
  bool caches = false, redirects = false;
  int connect_timeout = -1, read_timeout = -1;
  std::string sent;
  bool out_opened = false, out_closed = false, in_opened = false, in_closed = false, in_ended = false;
  int disconnects = 0;
  bool answered = false, live = false;
};

Seen Record(Env& e, int index) {
  auto a = static_cast<jbyteArray>(e->CallStaticObjectMethod(g_fake, Static(e, "record", "(I)[B"), index));
  Must(e, "record");
  Unpacker u;
  u.s.resize(e->GetArrayLength(a));
  e->GetByteArrayRegion(a, 0, u.s.size(), reinterpret_cast<jbyte*>(&u.s[0]));
  e->DeleteLocalRef(a);
  Seen x;
  x.created = u.Int();
  x.problems = u.Str();
  x.failed = u.Int();
  x.connection = u.Int();
  if (!x.connection) return x;
  x.method = u.Str();
  int n = u.Int();
  for (int i = 0; i < n; ++i) {
    std::string k = u.Str();
    x.properties.push_back({k, u.Str()});
  }
  x.input = u.Int();
  x.output = u.Int();
  x.fixed = u.Int();
  x.chunked = u.Int();
  x.caches = u.Int();
  x.redirects = u.Int();
  x.connect_timeout = u.Int();
  x.read_timeout = u.Int();
  x.sent = u.Str();
  x.out_opened = u.Int();
  x.out_closed = u.Int();
  x.in_opened = u.Int();
  x.in_closed = u.Int();
  x.in_ended = u.Int();
  x.disconnects = u.Int();
  x.answered = u.Int();
  x.live = u.Int();
  return x;
}

void AddScript(Env& e, const Plan& p) {
  Packer k;
  k.Str(p.uri);
  k.Int(p.fail);
  k.Int(p.fail_nth);
  k.Int(p.fail_timeout);
  k.Int(p.gate);
  k.Int(p.gate_nth);
  k.Int(p.code);
  k.Int(p.has_message);
  if (p.has_message) k.Str(p.message);
  k.Int(p.answer_headers.size());
  for (auto& h : p.answer_headers) {
    k.Str(h.first);
    k.Str(h.second);
  }
  k.Str(p.wire);
  k.Int(p.piece);
  k.Int(p.status_line);
  k.Int(p.no_error_stream);
  jbyteArray a = e->NewByteArray(k.s.size());
  e->SetByteArrayRegion(a, 0, k.s.size(), reinterpret_cast<const jbyte*>(k.s.data()));
  e->CallStaticVoidMethod(g_fake, Static(e, "script", "([B)V"), a);
  Must(e, "script");
  e->DeleteLocalRef(a);
}

void SetPerforming(Env& e, bool now) {
  {
    std::lock_guard<std::mutex> l(g_mu);
    g_performing = now;
    g_cv.notify_all();
  }
  e->CallStaticVoidMethod(g_fake, Static(e, "performing", "(Z)V"), now);
  Must(e, "performing");
}

// ---------------------------------------------------------------- oracle

void CheckRun(Run& r, const Seen& x, const Settings& set) {
  const Plan& p = r.p;
  std::string who = absl::StrCat("request ", p.id, ": ");
  auto fail = [&](const std::string& what) { pbt::Fail(who + what); };
  if (!r.problem.empty()) fail(r.problem);
  if (r.left_early) fail("the call returned while a callback was running");
  if (!x.problems.empty()) fail(x.problems);
  if (x.created > 1) fail("sent more than once");

  // How it may end.
  bool ended_by_us = r.gave_error;
  if (!r.ended && !ended_by_us) fail("no callback says how the request ended");
  bool cancelled = r.end_code == Code::kCancelled && r.ended;
  bool must_cancel = r.cancelled_self || r.cancelled_at_gate || r.cancelled_unstarted;
  bool may_cancel = must_cancel || r.cancelled_by_other || r.gate_cancel_called;
  if (cancelled && !may_cancel) fail("cancelled by nobody");
  if (must_cancel && !cancelled && !ended_by_us) fail("cancelled, but it did not end so");
  if (!cancelled && !ended_by_us) {
    // The natural end.
    Code want = Code::kOk;
    int length = -1;
    for (auto& h : p.headers) {
      if (absl::EqualsIgnoreCase(h.first, "content-length") && h.second == absl::StrCat(p.body.size())) length = p.body.size();
    }
    if (x.failed) {
      want = p.fail_timeout ? Code::kDeadlineExceeded : Code::kUnavailable;
    } else if (p.invalid) {
      want = Code::kInvalidArgument;
    } else if (p.read_fail >= 0 && r.reads > p.read_fail) {
      want = p.read_code;
    } else if (r.started && p.broken_gzip && !p.explicit_encoding && set.accept_encoding) {
      want = Code::kUnavailable;
    }
    if (r.end_code != want) {
      fail(absl::StrCat("ended with ", absl::StatusCodeToString(r.end_code), " rather than ", absl::StatusCodeToString(want)));
    }
  }
  if (p.invalid && (r.started || x.live)) fail("an invalid request was sent");

  // What was sent.
  if (x.live) {
    if (x.method != MethodName(p.method)) fail("sent with method " + x.method);
    HeaderList want = p.headers;
    if (set.accept_encoding && !p.explicit_encoding) want.push_back({"Accept-Encoding", "gzip"});
    if (Bag(x.properties) != Bag(want)) fail("other headers were sent");
    if (!x.input || x.output != p.has_body) fail("the directions of the connection are wrong");
    if (x.caches || !x.redirects) fail("caches or redirects are handled wrongly");
    if (x.connect_timeout != set.connect_timeout || x.read_timeout != set.read_timeout) fail("other time limits were set");
    if (p.has_body) {
      bool known = false;
      for (auto& h : p.headers) known = known || absl::EqualsIgnoreCase(h.first, "content-length");
      if (known ? x.fixed != static_cast<int>(p.body.size()) : x.chunked <= 0) fail("the length of the body is announced wrongly");
    }
  }
  if (p.body.compare(0, x.sent.size(), x.sent) != 0) fail("another body was sent");
  if (r.started && x.sent != p.body) fail("the body was not sent completely");
  if (p.invalid && !x.sent.empty()) fail("an invalid request was sent");

  // What was delivered.
  bool decodes = p.gzip && !p.explicit_encoding && set.accept_encoding;
  std::string means = decodes ? p.payload : p.wire;
  if (r.started) {
    if (r.answer_code != p.code) fail("another response code was delivered");
    HeaderList want, got;
    for (auto& h : p.answer_headers) {
      if (absl::EqualsIgnoreCase(h.first, "content-length")) continue;
      if (absl::EqualsIgnoreCase(h.first, "transfer-encoding")) continue;
      if (absl::EqualsIgnoreCase(h.first, "content-encoding") && decodes) continue;
      want.push_back(h);
    }
    for (auto& h : r.answer_headers) {
      // Kept only where the caller decodes; not reliable there.
      if (absl::EqualsIgnoreCase(h.first, "content-length") && p.explicit_encoding) continue;
      got.push_back(h);
    }
    if (Bag(got) != Bag(want)) fail("other response headers were delivered");
  }
  if (means.compare(0, r.got.size(), r.got) != 0) fail("another response body was delivered");
  if (r.completed && r.got != means) fail("the response body is not complete");

  // What is left behind.
  if (x.connection) {
    if (x.out_opened && !x.out_closed) fail("the request's stream was left open");
    if (x.in_opened && !x.in_closed && x.disconnects == 0) fail("the response's stream was left open");
    if (r.completed && x.disconnects > 0) fail("the connection of a completed request was cut");
    // One that was read to its end can be used again.
    if (!r.completed && x.disconnects == 0 && !(x.in_ended && x.in_closed) && !(r.started && p.no_error_stream)) fail("the connection of a failed request was left open");
  }
}

void CheckBytes(Run& r, const HttpRequestHandle::SentReceivedBytes& b, const Settings& set) {
  const Plan& p = r.p;
  std::string who = absl::StrCat("request ", p.id, ": ");
  double ratio = p.has_message && !p.message.empty() ? 1 : set.ratio;
  int64_t up = HeaderSize(p.headers) + p.uri.size();
  int64_t down = HeaderSize(p.answer_headers) + p.message.size();
  if (!r.completed) {
    PBT_CHECK(b.sent_bytes >= 0 && b.received_bytes >= 0 && b.sent_bytes <= static_cast<int64_t>(p.body.size()) + up + 300 &&
              b.received_bytes <= static_cast<int64_t>(p.wire.size()) + down + 300, who + "implausible byte counts");
    return;
  }
  int64_t sent = p.body.size(), received = p.wire.size();
  if (b.sent_bytes < sent + static_cast<int64_t>(0.9 * ratio * up) || b.sent_bytes > sent + up + 300) {
    pbt::Fail(absl::StrCat(who, b.sent_bytes, " bytes sent are reported, for a body of ", sent, " and headers of ", up));
  }
  if (b.received_bytes < received + static_cast<int64_t>(0.9 * ratio * down) || b.received_bytes > received + down + 300) {
    pbt::Fail(absl::StrCat(who, b.received_bytes, " bytes received are reported, for a body of ", received, " and headers of ", down));
  }
}

void Requests(Src& s, Case& c) {
  StartMachine();
  Env e;
  Settings set;
  set.pool = s.weighted({3, 1, 1});
  set.patient = set.pool == 0 && s.chance(1, 3);
  set.connect_timeout = s.of({-1, 0, 1000});
  set.read_timeout = s.of({-1, 0, 2000});
  set.request_chunk = s.of({16, 1, 5, 64, 5000});
  set.response_chunk = s.of({16, 1, 5, 64, 5000});
  set.gzip_buffer = s.of({16, 1, 5, 512});
  set.disconnect = s.chance(2, 3);
  set.accept_encoding = s.chance(3, 4);
  set.ratio = s.of({1.0, 0.5, 0.0});
  c.log << "pool " << set.pool << (set.patient ? " patient" : "") << " timeouts " << set.connect_timeout << "," << set.read_timeout << " chunks "
        << set.request_chunk << "," << set.response_chunk << "," << set.gzip_buffer << (set.disconnect ? " disconnects" : "")
        << (set.accept_encoding ? " sets" : " leaves") << " accept-encoding, ratio " << set.ratio << "\n";
  jobject jclient = e->CallStaticObjectMethod(
      g_fake, Static(e, "start", "(IZIIIIIZZD)Lcom/google/fcp/client/http/HttpClientForNative;"), set.pool, set.patient, set.connect_timeout,
      set.read_timeout, set.request_chunk, set.response_chunk, set.gzip_buffer, set.disconnect, set.accept_encoding, set.ratio);
  Must(e, "start");
  {
    std::lock_guard<std::mutex> l(g_mu);
    g_performing = false;
    g_live = 0;
  }
  auto client = std::make_unique<JavaHttpClient>(g_vm, jclient);

  std::deque<Run> runs;
  std::deque<Callback> callbacks;
  std::vector<std::unique_ptr<HttpRequestHandle>> handles;
  std::vector<int> scripted;  // the run of each script
  int groups = s.weighted({3, 1}) + 1;
  int id = 0;
  bool cancels = false, faults = false;
  std::string late;
  for (int g = 0; g < groups; ++g) {
    int n = s.small(1, 4);
    int base = runs.size();
    std::vector<Plan> plans;
    for (int i = 0; i < n; ++i) {
      plans.push_back(MakePlan(s, id++, n, i, set));
      // A fixed number of threads must not all wait for one another.
      if (set.pool > 0 && plans.back().gate && !plans.back().gate_cancels && i > 0) plans.back().gate = kNone;
      c.log << Show(plans.back());
    }
    for (auto& p : plans) {
      runs.emplace_back();
      Run& r = runs.back();
      r.p = p;
      callbacks.emplace_back(&r);
      handles.push_back(client->EnqueueRequest(std::make_unique<Request>(&r)));
      r.handle = handles.back().get();
      auto b = r.handle->TotalSentReceivedBytes();
      PBT_EQ(b.sent_bytes, 0, "sent before it began");
      PBT_EQ(b.received_bytes, 0, "received before it began");
    }
    for (int i = 0; i < n; ++i) {
      if (plans[i].other >= 0) runs[base + i].other = &runs[base + plans[i].other];
    }
    // A handle that was cancelled before, or that was performed already.
    int odd = s.weighted({12, 1, base > 0 ? 1 : 0});
    if (odd) {
      std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> q;
      for (int i = 0; i < n; ++i) q.push_back({runs[base + i].handle, &callbacks[base + i]});
      int which = s.range(0, n - 1);
      if (odd == 1) {
        runs[base + which].handle->Cancel();
      } else {
        q[which] = {runs[0].handle, &callbacks[0]};
      }
      c.log << "group " << g << ": " << (odd == 1 ? "cancelled before: " : "performed before: ") << which << "\n";
      {
        std::lock_guard<std::mutex> l(g_mu);
        for (auto& r : runs) r.events.clear();
      }
      absl::Status st = client->PerformRequests(q);
      PBT_EQ(st.code(), Code::kInvalidArgument, "a group with a spent handle");
      std::lock_guard<std::mutex> l(g_mu);
      for (auto& r : runs) {
        if (!r.events.empty()) pbt::Fail(absl::StrCat("request ", r.p.id, ": called back although the call was refused"));
      }
      c.label(odd == 1 ? "cancelled before" : "performed before");
      // None of these is performed any more.
      for (int i = 0; i < n; ++i) runs[base + i].p.id = -1;
      continue;
    }
    std::vector<std::pair<HttpRequestHandle*, HttpRequestCallback*>> q;
    int first_script = scripted.size();
    for (int i = 0; i < n; ++i) {
      AddScript(e, plans[i]);
      runs[base + i].script = scripted.size();
      scripted.push_back(base + i);
      q.push_back({runs[base + i].handle, &callbacks[base + i]});
    }
    SetPerforming(e, true);
    std::vector<std::thread> control;
    for (int i = 0; i < n; ++i) {
      if (plans[i].gate == kNone) continue;
      Run* r = &runs[base + i];
      int index = first_script + i;
      control.emplace_back([r, index] {
        Env e;
        bool there = e->CallStaticBooleanMethod(g_fake, Static(e, "awaitGate", "(I)Z"), index);
        Must(e, "awaitGate");
        if (!there) return;
        bool stays = false;
        if (r->p.gate_cancels) {
          {
            std::lock_guard<std::mutex> l(g_mu);
            r->gate_cancel_called = true;
            // It may have been cancelled by another request meanwhile.
            if (!r->ended && !r->gave_error) r->cancelled_at_gate = true;
          }
          r->handle->Cancel();
          stays = r->p.gate_stays;
        }
        if (!stays) {
          e->CallStaticVoidMethod(g_fake, Static(e, "release", "(I)V"), index);
          Must(e, "release");
        }
      });
    }
    absl::Status st;
    auto perform = [&] { st = client->PerformRequests(q); };
    if (s.flip()) {
      perform();
    } else {
      std::thread t(perform);
      t.join();
    }
    SetPerforming(e, false);
    for (auto& t : control) t.join();
    PBT_EQ(st.code(), Code::kOk, "performing");
    std::lock_guard<std::mutex> l(g_mu);
    for (int i = 0; i < n; ++i) {
      Run& r = runs[base + i];
      if (r.in_callback) pbt::Fail(absl::StrCat("request ", r.p.id, ": the call returned while a callback was running"));
      if (!r.ended && !r.gave_error) pbt::Fail(absl::StrCat("request ", r.p.id, ": the call returned before the request ended"));
      cancels = cancels || r.cancelled_at_gate || r.cancelled_self || r.cancelled_by_other;
    }
  }
  int64_t live;
  {
    std::lock_guard<std::mutex> l(g_mu);
    PBT_EQ(g_live, static_cast<int>(handles.size()), "live requests");
  }
  // Some handles go while their requests may still hang in the network.
  for (auto& h : handles) {
    if (s.chance(1, 3)) h.reset();
  }
  bool all = e->CallStaticBooleanMethod(g_fake, Static(e, "finish", "()Z"));
  Must(e, "finish");
  PBT_CHECK(all, "the threads end");
  std::string uncaught = Text(e, static_cast<jstring>(e->CallStaticObjectMethod(g_fake, Static(e, "uncaught", "()Ljava/lang/String;"))));
  PBT_EQ(uncaught, "", "uncaught exceptions");
  for (size_t i = 0; i < scripted.size(); ++i) {
    Run& r = runs[scripted[i]];
    Seen x = Record(e, i);
    c.log << "request " << r.p.id << " saw:";
    for (auto& v : r.events) c.log << " " << v << ";";
    c.log << (x.connection ? "" : " (no connection)") << "\n";
    CheckRun(r, x, set);
    if (handles[scripted[i]]) CheckBytes(r, handles[scripted[i]]->TotalSentReceivedBytes(), set);
    faults = faults || x.failed;
    c.label(r.completed ? "completed" : r.gave_error ? "refused" : absl::StrCat(r.body_error ? "body " : "", "error ", absl::StatusCodeToString(r.end_code)));
  }
  for (auto& r : runs) {
    std::lock_guard<std::mutex> l(g_mu);
    if (!r.problem.empty()) pbt::Fail(absl::StrCat("request ", r.p.id, ": ", r.problem));
  }
  handles.clear();
  {
    std::lock_guard<std::mutex> l(g_mu);
    PBT_EQ(g_live, 0, "requests left behind");
  }
  client.reset();
  c.nontrivial(cancels || faults || scripted.size() > 1);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "J01", "the case cancels a request, meets a failing network, or performs several requests",
                   {{"requests", Requests, 6000, 80000}}, true, 8, 20);
}
