#ifndef VERIF_SHIM_TFLITE_ERROR_REPORTER_H_
#define VERIF_SHIM_TFLITE_ERROR_REPORTER_H_
#include <cstdarg>
namespace tflite {
class ErrorReporter {
 public:
  virtual ~ErrorReporter() = default;
  virtual int Report(const char* format, va_list args) = 0;
  int Report(const char* format, ...) {
    va_list args;
    va_start(args, format);
    int r = Report(format, args);
    va_end(args);
    return r;
  }
};
}  // namespace tflite
#endif
