// Stand-in for absl/log (the packaged abseil predates it). Only what the code
// under test uses: ABSL_LOG / ABSL_LOG_IF with streaming, FATAL aborts.
#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_

#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include <string>

namespace verif_log {

enum Severity { INFO = 0, WARNING = 1, ERROR = 2, FATAL = 3, DFATAL = 2 };

// Optional process-wide hook observing every emitted line.
using Hook = void (*)(int severity, const std::string& text);
inline Hook& hook() {
  static Hook h = nullptr;
  return h;
}
inline bool& echo() {
  static bool e = std::getenv("VERIF_LOG") != nullptr;
  return e;
}

class Message {
 public:
  Message(int severity, const char* file, int line)
      : severity_(severity), file_(file), line_(line) {}
  Message(const Message&) = delete;
  ~Message() {
    std::string text = stream_.str();
    if (hook() != nullptr) hook()(severity_, text);
    if (severity_ >= FATAL || echo()) {
      std::fprintf(stderr, "%c %s:%d] %s\n", "IWEF"[severity_], file_, line_,
                   text.c_str());
    }
    if (severity_ >= FATAL) {
      std::fflush(stderr);
      std::abort();
    }
  }
  Message& WithVerbosity(int) { return *this; }
  Message& AtLocation(const char*, int) { return *this; }
  template <typename T>
  Message& operator<<(const T& v) {
    stream_ << v;
    return *this;
  }
  Message& operator<<(std::ostream& (*m)(std::ostream&)) {
    stream_ << m;
    return *this;
  }

 private:
  int severity_;
  const char* file_;
  int line_;
  std::ostringstream stream_;
};

struct Voidify {
  void operator&&(const Message&) const {}
};

}  // namespace verif_log

#define VERIF_LOG_(sev) \
  ::verif_log::Message(::verif_log::sev, __FILE__, __LINE__)
#define ABSL_LOG(sev) ::verif_log::Voidify() && VERIF_LOG_(sev)
#define ABSL_LOG_IF(sev, cond) \
  !(cond) ? (void)0 : ::verif_log::Voidify() && VERIF_LOG_(sev)

#endif  // VERIF_SHIM_ABSL_LOG_H_
