// LIBS: fcp_base grpc++
// B04: numeric, time and status conversions are lossless or refused.
#include <limits>
#include <string>

#include "absl/time/time.h"
#include "fcp/base/bounds.h"
#include "fcp/base/monitoring.h"
#include "fcp/base/status_converters.h"
#include "fcp/base/time_util.h"
#include "grpcpp/support/status.h"
#include "pbt/pbt.h"

namespace {

typedef __int128 i128;

// A value of type T near one of the limits of any integer type.
template <typename T>
T GenInt(pbt::Src& s) {
  const i128 tmin = std::numeric_limits<T>::min();
  const i128 tmax = std::numeric_limits<T>::max();
  static const i128 marks[] = {
      0, -128, 127, 255, -32768, 32767, 65535,
      std::numeric_limits<int32_t>::min(), std::numeric_limits<int32_t>::max(),
      std::numeric_limits<uint32_t>::max(), std::numeric_limits<int64_t>::min(),
      std::numeric_limits<int64_t>::max(), std::numeric_limits<uint64_t>::max()};
  if (s.chance(1, 4)) return static_cast<T>(s.draw(0));
  i128 v = marks[s.draw(13)] + s.range(-3, 3);
  if (v < tmin) v = tmin + s.range(0, 3);
  if (v > tmax) v = tmax - s.range(0, 3);
  return static_cast<T>(v);
}

template <typename To, typename From>
void Cast(pbt::Src& s, pbt::Case& c, const char* name) {
  From from = GenInt<From>(s);
  To to = static_cast<To>(0x5a);
  bool fits = static_cast<i128>(from) >= std::numeric_limits<To>::min() &&
              static_cast<i128>(from) <= std::numeric_limits<To>::max();
  c.log << name << " of " << static_cast<long double>(from) << "\n";
  bool ok = fcp::TryCastInteger<To, From>(from, &to);
  PBT_EQ(ok, fits, "whether the conversion is possible");
  if (fits) {
    PBT_CHECK(static_cast<i128>(to) == static_cast<i128>(from),
              "converted value differs");
    To checked = fcp::CastIntegerChecked<To, From>(from);
    PBT_CHECK(static_cast<i128>(checked) == static_cast<i128>(from),
              "converted value differs");
  } else {
    PBT_CHECK(to == static_cast<To>(0x5a), "output touched on failure");
  }
  c.nontrivial(true);
  c.label(fits ? "fits" : "refused");
}

template <typename From>
void CastFrom(pbt::Src& s, pbt::Case& c, const char* name) {
  switch (s.draw(8)) {
    case 0: return Cast<int8_t, From>(s, c, name);
    case 1: return Cast<uint8_t, From>(s, c, name);
    case 2: return Cast<int16_t, From>(s, c, name);
    case 3: return Cast<uint16_t, From>(s, c, name);
    case 4: return Cast<int32_t, From>(s, c, name);
    case 5: return Cast<uint32_t, From>(s, c, name);
    case 6: return Cast<int64_t, From>(s, c, name);
    default: return Cast<uint64_t, From>(s, c, name);
  }
}

void Casts(pbt::Src& s, pbt::Case& c) {
  switch (s.draw(8)) {
    case 0: return CastFrom<int8_t>(s, c, "int8");
    case 1: return CastFrom<uint8_t>(s, c, "uint8");
    case 2: return CastFrom<int16_t>(s, c, "int16");
    case 3: return CastFrom<uint16_t>(s, c, "uint16");
    case 4: return CastFrom<int32_t>(s, c, "int32");
    case 5: return CastFrom<uint32_t>(s, c, "uint32");
    case 6: return CastFrom<int64_t>(s, c, "int64");
    default: return CastFrom<uint64_t>(s, c, "uint64");
  }
}

void Spaces(pbt::Src& s, pbt::Case& c) {
  uint32_t size = s.edgy(32), count = s.edgy(32);
  i128 total = static_cast<i128>(size) * count;
  PBT_CHECK(static_cast<i128>(fcp::SafeMultiply(size, count)) == total,
            "product");
  fcp::AddressSpace space = fcp::AddressSpace::Current();
  if (s.chance(4, 5)) {
    uint64_t start = s.edgy(64);
    uint64_t room = ~start;
    uint64_t len = s.flip() ? s.edgy(64) : static_cast<uint64_t>(total) + s.range(-2, 2);
    if (len > room) len = room;
    space = fcp::AddressSpace::Embedded(reinterpret_cast<void*>(start), len);
  }
  uint64_t ptr;
  switch (s.weighted({2, 3, 1})) {
    case 0:
      ptr = s.edgy(64);
      break;
    case 1:  // around the last address at which the span fits
      ptr = space.size - static_cast<uint64_t>(total) + s.range(-2, 2);
      break;
    default:
      ptr = space.size + s.range(-2, 2);
  }
  c.log << "space " << space.start << "+" << space.size << " pointer " << ptr
        << " span " << size << "x" << count << "\n";
  bool fits = static_cast<i128>(ptr) + total <= static_cast<i128>(space.size);
  void* out = fcp::MapOutOfAddressSpace(space, fcp::ForeignPointer{ptr}, size, count);
  uint64_t want = fits ? reinterpret_cast<uint64_t>(space.start) + ptr : 0;
  PBT_EQ(reinterpret_cast<uint64_t>(out), want, "mapped address");
  c.nontrivial(total > 0);
  c.label(fits ? "inside" : "outside");
}

// Seconds of 0001-01-01 and 9999-12-31T23:59:59, the limits of a timestamp.
constexpr int64_t kMinTs = -62135596800ll, kMaxTs = 253402300799ll;
constexpr int64_t kMaxDur = 315576000000ll;

int64_t Seconds(pbt::Src& s, int64_t lo, int64_t hi) {
  switch (s.weighted({2, 2, 2, 1})) {
    case 0:
      return std::min(hi, std::max(lo, s.range(-3, 3)));
    case 1:
      return s.range(lo, hi);
    case 2:
      return s.range(std::max<int64_t>(lo, -2000000000ll), 2000000000ll);
    default:
      return s.flip() ? lo + s.range(0, 2) : hi - s.range(0, 2);
  }
}

int32_t Nanos(pbt::Src& s) {
  return s.flip() ? s.of<int32_t>({0, 1, 999999999, 500000000, 999999, 1000000})
                  : s.range(0, 999999999);
}

void Times(pbt::Src& s, pbt::Case& c) {
  using fcp::TimeUtil;
  {
    google::protobuf::Timestamp ts;
    ts.set_seconds(Seconds(s, kMinTs, kMaxTs));
    ts.set_nanos(Nanos(s));
    c.log << "timestamp " << ts.seconds() << "." << ts.nanos() << "\n";
    absl::Time t = TimeUtil::ConvertProtoToAbslTime(ts);
    absl::Time want = absl::UnixEpoch() + absl::Seconds(ts.seconds()) +
                      absl::Nanoseconds(ts.nanos());
    PBT_CHECK(t == want, "timestamp reads as another time");
    google::protobuf::Timestamp back = TimeUtil::ConvertAbslToProtoTimestamp(t);
    PBT_EQ(back.seconds(), ts.seconds(), "seconds after the round trip");
    PBT_EQ(back.nanos(), ts.nanos(), "nanos after the round trip");
    // Finer than a nanosecond: at most a nanosecond is dropped.
    absl::Time fine = t + absl::Nanoseconds(1) / 4 * s.range(0, 3);
    google::protobuf::Timestamp f = TimeUtil::ConvertAbslToProtoTimestamp(fine);
    PBT_CHECK(f.nanos() >= 0 && f.nanos() <= 999999999, "nanos out of range");
    absl::Duration err = fine - TimeUtil::ConvertProtoToAbslTime(f);
    PBT_CHECK(err < absl::Nanoseconds(1) && err > -absl::Nanoseconds(1),
              "timestamp off by " << absl::FormatDuration(err));
    c.nontrivial(ts.nanos() != 0);
    c.label(ts.seconds() < 0 ? "before the epoch" : "after the epoch");
  }
  {
    google::protobuf::Duration d;
    int64_t sec = Seconds(s, -kMaxDur, kMaxDur);
    int32_t ns = Nanos(s);
    if (sec < 0 || (sec == 0 && s.flip())) ns = -ns;
    d.set_seconds(sec);
    d.set_nanos(ns);
    c.log << "duration " << sec << "s " << ns << "ns\n";
    absl::Duration a = TimeUtil::ConvertProtoToAbslDuration(d);
    PBT_CHECK(a == absl::Seconds(sec) + absl::Nanoseconds(ns),
              "duration reads as " << absl::FormatDuration(a));
    google::protobuf::Duration back = TimeUtil::ConvertAbslToProtoDuration(a);
    PBT_EQ(back.seconds(), sec, "seconds after the round trip");
    PBT_EQ(back.nanos(), ns, "nanos after the round trip");
    PBT_CHECK(!((back.seconds() > 0 && back.nanos() < 0) ||
                (back.seconds() < 0 && back.nanos() > 0)),
              "parts of different sign");
  }
  // Endless durations stay the extreme ones.
  auto inf = TimeUtil::ConvertAbslToProtoDuration(absl::InfiniteDuration());
  auto ninf = TimeUtil::ConvertAbslToProtoDuration(-absl::InfiniteDuration());
  PBT_CHECK(inf.seconds() >= kMaxDur && inf.nanos() >= 0, "endless duration");
  PBT_CHECK(ninf.seconds() <= -kMaxDur && ninf.nanos() <= 0,
            "negative endless duration");
}

fcp::Status Build(fcp::StatusCode code, const std::vector<std::string>& parts,
                  int copies, std::string* before) {
  auto b = FCP_STATUS(code);
  for (size_t i = 0; i < parts.size(); ++i) {
    b << parts[i];
    if (static_cast<int>(i) < copies) {
      auto copy = b;
      copy << "";
      fcp::Status seen = copy;
      *before = std::string(seen.message());
    }
  }
  return b;
}

fcp::Status BuildThroughCopies(fcp::StatusCode code,
                               const std::vector<std::string>& parts, size_t i,
                               fcp::internal::StatusBuilder b) {
  if (i == parts.size()) return b;
  // Passing the builder by value copies it.
  auto next = b << parts[i];
  return BuildThroughCopies(code, parts, i + 1, next);
}

fcp::Status ReturnIf(const fcp::Status& st, bool* went_on) {
  FCP_RETURN_IF_ERROR(st);
  *went_on = true;
  return FCP_STATUS(fcp::OK);
}

fcp::StatusOr<std::string> Assign(const fcp::StatusOr<int>& v, bool* went_on) {
  FCP_ASSIGN_OR_RETURN(int x, v);
  *went_on = true;
  return std::to_string(x);
}

void Statuses(pbt::Src& s, pbt::Case& c) {
  auto code = static_cast<fcp::StatusCode>(s.range(0, 16));
  std::vector<std::string> parts;
  int n = s.small(0, 4);
  std::string all;
  for (int i = 0; i < n; ++i) {
    parts.push_back(s.str(12, "abc %\n:)"));
    all += parts.back();
  }
  c.log << "code " << static_cast<int>(code) << " message " << pbt::Quote(all)
        << "\n";
  c.nontrivial(code != fcp::OK && n >= 2);

  std::string seen;
  fcp::Status st = Build(code, parts, s.small(0, 3), &seen);
  fcp::Status st2 =
      BuildThroughCopies(code, parts, 0, fcp::internal::MakeStatusBuilder(
                                             code, "some/dir/file.cc", 7));
  for (const fcp::Status& x : {st, st2}) {
    PBT_CHECK(x.code() == code, "status code changed");
    if (code != fcp::OK) {
      std::string m(x.message());
      PBT_CHECK(m.size() >= all.size() &&
                    m.compare(m.size() - all.size(), all.size(), all) == 0,
                "message " << pbt::Quote(m) << " lacks " << pbt::Quote(all));
    }
  }
  if (code != fcp::OK) {
    std::string m(st2.message());
    PBT_CHECK(m.find("file.cc:7") != std::string::npos,
              "origin missing in " << pbt::Quote(m));
    PBT_CHECK(m.find("some/dir") == std::string::npos, "full path kept");
    fcp::StatusOr<int> so = FCP_STATUS(code) << all;
    PBT_CHECK(!so.ok() && so.status().code() == code, "status-or");
  }

  // Wire codes.
  grpc::StatusCode g = fcp::base::ToGrpcStatusCode(code);
  PBT_EQ(static_cast<int>(g), static_cast<int>(code), "wire code");
  PBT_CHECK(fcp::base::FromGrpcStatusCode(g) == code, "code after round trip");
  grpc::Status gs = fcp::base::ToGrpcStatus(st);
  fcp::Status round = fcp::base::FromGrpcStatus(gs);
  PBT_CHECK(round == st, "status after round trip: " << round.ToString());
  int odd = s.of<int>({17, 100, -1, 1000, 99});
  PBT_CHECK(fcp::base::FromGrpcStatusCode(static_cast<grpc::StatusCode>(odd)) ==
                fcp::StatusCode::kUnknown,
            "unassigned wire code " << odd);
  PBT_CHECK(fcp::base::ToGrpcStatusCode(static_cast<fcp::StatusCode>(odd)) ==
                grpc::StatusCode::UNKNOWN,
            "unassigned code " << odd);

  // Early return.
  bool went_on = false;
  fcp::Status r = ReturnIf(st, &went_on);
  PBT_CHECK(r.code() == code, "returned status");
  if (code != fcp::OK) PBT_CHECK(r == st, "returned status was altered");
  PBT_EQ(went_on, code == fcp::OK, "whether the function went on");
  went_on = false;
  int v = static_cast<int>(s.range(-5, 5));
  fcp::StatusOr<int> so = v;
  if (code != fcp::OK) so = st;
  auto a = Assign(so, &went_on);
  PBT_EQ(went_on, code == fcp::OK, "whether the function went on");
  if (code == fcp::OK) {
    PBT_EQ(*a, std::to_string(v), "assigned value");
  } else {
    PBT_CHECK(a.status() == st, "returned status was altered");
  }
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "B04",
                   "any integer conversion, a non-empty span, a time with a "
                   "fraction, or an error built from two or more parts",
                   {{"casts", Casts, 60000, 1000000},
                    {"spaces", Spaces, 40000, 800000},
                    {"times", Times, 40000, 800000},
                    {"statuses", Statuses, 20000, 300000}});
}
