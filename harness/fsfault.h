// Makes the n-th file-changing call fail, or end the process, while armed.
// Define VERIF_FSFAULT_DEFINE before including this in one translation unit.
#ifndef VERIF_FSFAULT_H_
#define VERIF_FSFAULT_H_

namespace fsfault {
enum Mode { kOff, kFail, kPartial, kExit, kPartialExit };
void Arm(Mode mode, int nth);
// Disarms and returns how many calls were counted.
int Disarm();
bool Fired();
}  // namespace fsfault

#ifdef VERIF_FSFAULT_DEFINE
#include <dlfcn.h>
#include <errno.h>
#include <stdio.h>
#include <sys/uio.h>
#include <unistd.h>

#include <atomic>

namespace fsfault {
static std::atomic<int> g_mode{kOff}, g_left{0}, g_count{0};
static std::atomic<bool> g_fired{false};
void Arm(Mode mode, int nth) {
  g_left = nth;
  g_count = 0;
  g_fired = false;
  g_mode = mode;
}
int Disarm() {
  g_mode = kOff;
  return g_count;
}
bool Fired() { return g_fired; }
// Which fault applies to this call.
static Mode Hit() {
  if (g_mode == kOff) return kOff;
  g_count++;
  if (g_fired) return kOff;
  if (g_left-- > 0) return kOff;
  g_fired = true;
  return static_cast<Mode>(g_mode.load());
}
template <typename F>
static F Next(const char* n) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, n));
}
}  // namespace fsfault

extern "C" {
ssize_t write(int fd, const void* p, size_t n) {
  static auto real = fsfault::Next<ssize_t (*)(int, const void*, size_t)>("write");
  if (fd > 2) {
    switch (fsfault::Hit()) {
      case fsfault::kFail:
        errno = ENOSPC;
        return -1;
      case fsfault::kPartial:
        if (n > 1) real(fd, p, n / 2);
        errno = ENOSPC;
        return -1;
      case fsfault::kPartialExit:
        if (n > 1) real(fd, p, n / 2);
        _exit(0);
      case fsfault::kExit:
        _exit(0);
      default:
        break;
    }
  }
  return real(fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
  static auto real = fsfault::Next<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (fd > 2) {
    switch (fsfault::Hit()) {
      case fsfault::kFail:
        errno = ENOSPC;
        return -1;
      case fsfault::kPartial:
        if (n > 0) real(fd, v, 1);
        errno = ENOSPC;
        return -1;
      case fsfault::kPartialExit:
        if (n > 0) real(fd, v, 1);
        _exit(0);
      case fsfault::kExit:
        _exit(0);
      default:
        break;
    }
  }
  return real(fd, v, n);
}
int rename(const char* a, const char* b) {
  static auto real = fsfault::Next<int (*)(const char*, const char*)>("rename");
  switch (fsfault::Hit()) {
    case fsfault::kFail:
    case fsfault::kPartial:
      errno = EIO;
      return -1;
    case fsfault::kExit:
    case fsfault::kPartialExit:
      _exit(0);
    default:
      return real(a, b);
  }
}
int remove(const char* a) {
  static auto real = fsfault::Next<int (*)(const char*)>("remove");
  switch (fsfault::Hit()) {
    case fsfault::kFail:
    case fsfault::kPartial:
      errno = EIO;
      return -1;
    case fsfault::kExit:
    case fsfault::kPartialExit:
      _exit(0);
    default:
      return real(a);
  }
}
}
#endif  // VERIF_FSFAULT_DEFINE
#endif  // VERIF_FSFAULT_H_
