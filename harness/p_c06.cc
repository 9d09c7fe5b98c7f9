// LIBS: fcp_client
// C06: retry delays against the window, the jitter and the clock.
#include <algorithm>

#include "absl/random/random.h"
#include "absl/strings/str_cat.h"
#include "absl/time/clock.h"
#include "absl/time/time.h"
#include "fcp/client/federated_protocol_util.h"
#include "pbt/pbt.h"

static absl::Time g_now;
namespace absl {
ABSL_NAMESPACE_BEGIN
Time Now() { return g_now; }
ABSL_NAMESPACE_END
}  // namespace absl

namespace {

using google::internal::federatedml::v2::RetryWindow;

absl::Duration From(const google::protobuf::Duration& d) {
  return absl::Seconds(d.seconds()) + absl::Nanoseconds(d.nanos());
}

void CheckZeroWidth(const RetryWindow& w, const char* what) {
  PBT_CHECK(w.has_delay_min() && w.has_delay_max(), what << ": no delay");
  PBT_EQ(From(w.delay_min()), From(w.delay_max()), what << ": not one point");
  PBT_CHECK(w.delay_min().seconds() >= 0 && w.delay_min().nanos() >= 0 &&
                w.delay_min().nanos() < 1000000000,
            what << ": malformed " << w.ShortDebugString());
}

google::protobuf::Duration AnyDelay(pbt::Src& s) {
  google::protobuf::Duration d;
  const int64_t kMost = 315576000000;  // the most a duration message may hold
  switch (s.weighted({2, 4, 3, 2, 2})) {
    case 0: return d;
    case 1: d.set_seconds(s.range(0, 100000)); break;
    case 2: d.set_seconds(s.range(0, 3)); break;
    case 3: d.set_seconds(s.chance(1, 3) ? kMost : s.range(0, kMost)); break;
    case 4: d.set_seconds(-s.range(0, s.flip() ? 3 : kMost)); break;
  }
  if (s.flip()) {
    int64_t n = s.chance(1, 4) ? 999999999 : s.range(0, 999999999);
    d.set_nanos(d.seconds() < 0 ? -n : n);
  }
  return d;
}

// Durations beyond a few centuries are kept in floating point on the way.
absl::Duration Slack(absl::Duration a) {
  return absl::Nanoseconds(1) + a * 1e-12;
}

void Range(pbt::Src& s, pbt::Case& c) {
  g_now = absl::FromUnixNanos(s.range(0, 4000000000000000000));
  absl::BitGen gen;
  google::protobuf::Duration min = AnyDelay(s), max = AnyDelay(s);
  if (s.chance(1, 3)) max = min;
  absl::Duration lo = std::max(absl::ZeroDuration(), From(min));
  absl::Duration hi = std::max(lo, From(max));
  c.log << "[" << From(min) << ", " << From(max) << "]";
  absl::Duration slack = Slack(hi);
  bool wide = hi - lo >= absl::Seconds(1);
  c.nontrivial(wide);
  c.key(absl::StrCat(min.seconds(), ".", min.nanos(), "/", max.seconds(), ".",
                     max.nanos()));
  if (From(max) < From(min)) c.label("inverted");
  if (From(min) < absl::ZeroDuration()) c.label("negative");
  bool quarter[4] = {};
  for (int i = 0; i < (wide ? 250 : 5); i++) {
    absl::Duration d = fcp::client::PickRetryTimeFromRange(min, max, gen) -
                       g_now;
    PBT_CHECK(d >= lo - slack && d <= hi + slack && d >= absl::ZeroDuration(),
              "delay " << d << " outside [" << lo << ", " << hi << "]");
    if (wide)
      quarter[std::clamp(
          int(absl::FDivDuration(d - lo, hi - lo) * 4), 0, 3)] = true;
  }
  if (wide)
    for (int q = 0; q < 4; q++)
      PBT_CHECK(quarter[q], "250 draws never in quarter " << q);
}

void Jitter(pbt::Src& s, pbt::Case& c) {
  g_now = absl::FromUnixNanos(s.range(0, 4000000000000000000));
  absl::BitGen gen;
  absl::Duration target =
      s.chance(1, 8) ? -absl::Seconds(s.range(0, 1000))
      : s.chance(1, 4) ? absl::Milliseconds(s.range(0, 5000))
                       : absl::Seconds(s.range(0, 100000000));
  double jitter = s.of<double>({0, 0.1, 0.2, 0.5, 1.0, -0.5, -3, 1.5, 7});
  double used = std::clamp(jitter, 0.0, 1.0);
  absl::Duration lo = std::max(absl::ZeroDuration(), target * (1 - used));
  absl::Duration hi = std::max(lo, target * (1 + used));
  absl::Duration slack = Slack(hi);
  c.log << target << " +- " << jitter;
  bool wide = hi - lo >= absl::Seconds(1);
  c.nontrivial(wide);
  bool quarter[4] = {};
  for (int i = 0; i < (wide ? 250 : 5); i++) {
    RetryWindow w =
        fcp::client::GenerateRetryWindowFromTargetDelay(target, jitter, gen);
    CheckZeroWidth(w, "jitter");
    absl::Duration d = From(w.delay_min());
    PBT_CHECK(d >= lo - slack && d <= hi + slack,
              "delay " << d << " outside [" << lo << ", " << hi << "]");
    if (wide)
      quarter[std::clamp(
          int(absl::FDivDuration(d - lo, hi - lo) * 4), 0, 3)] = true;
  }
  if (wide)
    for (int q = 0; q < 4; q++)
      PBT_CHECK(quarter[q], "250 draws never in quarter " << q);
}

void TimeToDelay(pbt::Src& s, pbt::Case& c) {
  g_now = absl::FromUnixNanos(s.range(0, 4000000000000000000));
  absl::Time start = g_now;
  google::protobuf::Duration min = AnyDelay(s), max = AnyDelay(s);
  absl::BitGen gen;
  absl::Time at = fcp::client::PickRetryTimeFromRange(min, max, gen);
  c.log << "[" << From(min) << ", " << From(max) << "]";
  // As time passes the delay shrinks by exactly what has passed, down to zero.
  int steps = 1 + s.draw(4);
  bool reached = false, before = false;
  for (int i = 0; i < steps; i++) {
    absl::Duration left = at - g_now;
    switch (s.draw(4)) {
      case 0: g_now += absl::Seconds(s.range(0, 1000)); break;
      case 1: if (left > absl::ZeroDuration()) g_now += left * 0.5; break;
      case 2: g_now = at + absl::Seconds(s.range(-2, 2)); break;
      case 3: g_now -= absl::Seconds(s.range(0, 100)); break;  // clock set back
    }
    RetryWindow w = fcp::client::GenerateRetryWindowFromRetryTime(at);
    CheckZeroWidth(w, "time");
    absl::Duration want = std::max(absl::ZeroDuration(), at - g_now);
    absl::Duration got = From(w.delay_min());
    PBT_CHECK(got <= want && want - got <= absl::Nanoseconds(1),
              "delay " << got << ", time left " << want);
    (want > absl::ZeroDuration() ? before : reached) = true;
    c.log << " " << want;
  }
  if (reached) c.label("time passed");
  c.nontrivial(before);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C06",
                   "window at least a second wide; retry time still ahead",
                   {{"range", Range, 4000, 60000},
                    {"jitter", Jitter, 4000, 60000},
                    {"time", TimeToDelay, 8000, 120000}});
}
