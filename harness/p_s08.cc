// LIBS: fcp_secagg_server
// S08: sharing graph structure and parameter choice.
#include <cmath>
#include <memory>
#include <set>

#define VERIF_DETRAND_DEFINE
#include "detrand.h"
#include "fcp/secagg/server/distribution_utilities.h"
#include "fcp/secagg/server/graph_parameter_finder.h"
#include "fcp/secagg/server/secret_sharing_graph_factory.h"
#include "pbt/pbt.h"

using namespace fcp::secagg;

namespace {

void CheckGraph(const SecretSharingGraph& g, int n, int degree, int threshold,
                bool harary) {
  PBT_EQ(g.GetNumNodes(), n, "nodes");
  PBT_EQ(g.GetDegree(), degree, "degree");
  PBT_EQ(g.GetThreshold(), threshold, "threshold");
  for (int a = 0; a < n; ++a) {
    std::set<int> nb;
    for (int i = 0; i < degree; ++i) {
      int b = g.GetNeighbor(a, i);
      PBT_CHECK(b >= 0 && b < n, "neighbour out of range");
      PBT_CHECK(nb.insert(b).second, "client " << a << " lists " << b << " twice");
      auto back = g.GetNeighborIndex(a, b);
      PBT_CHECK(back.has_value() && *back == i,
                "index of " << b << " at " << a << " is "
                            << (back ? std::to_string(*back) : "none")
                            << " but it is neighbour " << i);
    }
    PBT_CHECK(nb.count(a), "client " << a << " is not its own neighbour");
    for (int b = 0; b < n; ++b) {
      PBT_EQ(g.AreNeighbors(a, b), nb.count(b) > 0, "neighbour test " << a << "," << b);
      PBT_EQ(g.AreNeighbors(b, a), nb.count(b) > 0, "symmetry " << a << "," << b);
      PBT_EQ(g.GetNeighborIndex(a, b).has_value(), nb.count(b) > 0,
             "index of a non-neighbour");
      if (a != b && nb.count(b)) {
        PBT_CHECK(g.IsOutgoingNeighbor(a, b) != g.IsOutgoingNeighbor(b, a),
                  "pair " << a << "," << b
                          << " must be outgoing in exactly one direction");
      }
      if (!nb.count(b))
        PBT_CHECK(!g.IsOutgoingNeighbor(a, b), "outgoing to a non-neighbour");
    }
    PBT_CHECK(g.IsOutgoingNeighbor(a, a), "a client is outgoing to itself");
  }
}

void Graphs(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  int n = s.chance(1, 6) ? s.range(60, 140) : s.small(1, 50);
  if (s.chance(1, 5)) {
    int t = s.range(1, n);
    auto g = SecretSharingGraphFactory::CreateCompleteGraph(n, t);
    c.log << "complete n=" << n << " t=" << t;
    c.nontrivial(n > 2);
    CheckGraph(*g, n, n, t, false);
    return;
  }
  int half = s.chance(1, 4) ? (n - 1) / 2 : s.range(0, (n - 1) / 2);
  int degree = 2 * half + 1;
  int t = s.range(1, degree);
  bool random = s.chance(3, 4);
  auto g = SecretSharingGraphFactory::CreateHararyGraph(n, degree, t, random);
  c.log << "harary n=" << n << " degree=" << degree << " t=" << t
        << " random=" << random;
  c.nontrivial(n > 3 && degree > 1);
  CheckGraph(*g, n, degree, t, true);
  // The ring is connected: consecutive reachability covers all clients.
  if (degree >= 3) {
    std::set<int> seen{0};
    std::vector<int> todo{0};
    while (!todo.empty()) {
      int x = todo.back();
      todo.pop_back();
      for (int i = 0; i < degree; ++i) {
        int y = g->GetNeighbor(x, i);
        if (seen.insert(y).second) todo.push_back(y);
      }
    }
    PBT_EQ(seen.size(), static_cast<size_t>(n), "graph is disconnected");
  }
}

// Independent hypergeometric tails in long double, by recurrence from the
// exact ratio of consecutive terms and a log-gamma anchor.
long double LogChoose(long double n, long double k) {
  return lgammal(n + 1) - lgammal(k + 1) - lgammal(n - k + 1);
}
long double Pmf(int total, int marked, int sampled, int x) {
  if (x < 0 || x > sampled || x > marked) return 0;
  if (sampled - x > total - marked) return 0;
  return expl(LogChoose(marked, x) + LogChoose(total - marked, sampled - x) -
              LogChoose(total, sampled));
}
long double Upper(int total, int marked, int sampled, int from) {  // P[X>=from]
  long double r = 0;
  for (int x = std::min(marked, sampled); x >= std::max(from, 0); --x)
    r += Pmf(total, marked, sampled, x);
  return r;
}
long double Lower(int total, int marked, int sampled, int upto) {  // P[X<=upto]
  long double r = 0;
  for (int x = 0; x <= upto && x <= sampled; ++x)
    r += Pmf(total, marked, sampled, x);
  return r;
}

void Parameters(pbt::Src& s, pbt::Case& c) {
  int n;
  switch (s.weighted({3, 3, 1})) {
    case 0:
      n = s.range(-1, 300);
      break;
    case 1:
      n = s.range(300, 5000);
      break;
    default:
      n = s.range(5000, 1000001);
  }
  AdversaryClass cls = s.of<AdversaryClass>(
      {AdversaryClass::CURIOUS_SERVER, AdversaryClass::SEMI_MALICIOUS_SERVER,
       AdversaryClass::NONE});
  double adv = cls == AdversaryClass::NONE && s.chance(9, 10)
                   ? 0
                   : s.range(0, 60) / 100.0;
  double drop = s.range(0, 60) / 100.0;
  if (s.chance(1, 12)) adv = s.flip() ? -0.1 : 1.0;
  if (s.chance(1, 12)) drop = s.flip() ? -0.1 : 1.0;
  SecureAggregationRequirements req;
  req.set_adversarial_client_rate(adv);
  req.set_estimated_dropout_rate(drop);
  req.set_adversary_class(cls);
  auto p = ComputeHararyGraphParameters(n, req);
  c.log << "n=" << n << " adv=" << adv << " drop=" << drop << " class=" << cls;
  bool invalid = n <= 0 || n > 1000000 || adv < 0 || adv >= 1 || drop < 0 ||
                 drop >= 1 || (cls == AdversaryClass::NONE && adv > 0) ||
                 (cls != AdversaryClass::SEMI_MALICIOUS_SERVER && adv + drop > .9) ||
                 (cls == AdversaryClass::SEMI_MALICIOUS_SERVER &&
                  adv + 2 * drop > .9);
  if (invalid) {
    c.label("invalid");
    PBT_CHECK(!p.ok(), "infeasible requirements accepted");
    return;
  }
  if (!p.ok()) {
    c.label("not found");
    // Plenty of honest clients always admit a sub-graph.
    PBT_CHECK(!(n >= 2000 && adv + 2 * drop <= 0.4),
              "no parameters found for an easy instance");
    return;
  }
  c.label("found");
  c.nontrivial();
  int d = p->degree, t = p->threshold;
  c.log << " -> degree=" << d << " threshold=" << t;
  PBT_EQ(p->number_of_nodes, n, "number of nodes");
  PBT_CHECK(d >= 2 && d % 2 == 0 && d + 1 <= n, "degree " << d << " of " << n);
  PBT_CHECK(t >= 2 && t <= d, "threshold " << t << " with degree " << d);
  int nadv = static_cast<int>(std::floor((adv + 1e-14) * n));
  int ndrop = static_cast<int>(std::floor((drop + 1e-14) * n));
  int nsurv = static_cast<int>(std::ceil((1 - drop - 1e-14) * n));
  long double slack = 1.0001L;
  // Privacy: too many adversarial neighbours.
  int danger = cls == AdversaryClass::SEMI_MALICIOUS_SERVER ? 2 * t - d : t;
  long double bad = Upper(n, nadv, d, danger);
  PBT_CHECK(bad <= slack * powl(2, -41) / n,
            "adversary reaches " << danger << " neighbours with probability "
                                 << (double)bad);
  // Correctness: too few surviving neighbours. Known finding: a threshold of
  // one that would be safe is raised to two (the least Shamir threshold)
  // without repeating this test, so it is judged with the value before.
  int judged = t;
  int danger1 = cls == AdversaryClass::SEMI_MALICIOUS_SERVER ? 2 - d : 1;
  if (t == 2 && Upper(n, nadv, d, danger1) <= slack * powl(2, -41) / n) {
    c.label("raised to two");
    judged = 1;
  }
  long double fail = Lower(n, nsurv, d, judged - 1);
  PBT_CHECK(fail <= slack * powl(2, -20) / n,
            "fewer than " << t << " neighbours survive with probability "
                          << (double)fail);
  // Connectivity of honest survivors.
  int nbad = nadv + ndrop;
  if (d <= nbad) {
    long double lp = logl(n) + logl(n - d - 1) - logl(2) + lgammal(nbad + 1) +
                     lgammal(n - d + 1) - lgammal(n + 1) - lgammal(nbad - d + 1);
    PBT_CHECK(lp < -41 * logl(2) + 1e-6, "graph disconnects with log-probability "
                                             << (double)lp);
  }
}

void FullGraph(pbt::Src& s, pbt::Case& c) {
  int n = s.range(0, 200);
  int t = s.range(-1, 201);
  AdversaryClass cls = s.of<AdversaryClass>(
      {AdversaryClass::CURIOUS_SERVER, AdversaryClass::SEMI_MALICIOUS_SERVER,
       AdversaryClass::NONE});
  double adv = s.range(0, 95) / 100.0, drop = s.range(0, 95) / 100.0;
  if (s.chance(1, 12)) adv = s.flip() ? -0.1 : 1.0;
  if (s.chance(1, 12)) drop = s.flip() ? -0.1 : 1.0;
  if (n > 0 && s.flip()) t = std::min<int>(n, std::ceil(n * (1 - drop)) + s.range(-1, 3));
  SecureAggregationRequirements req;
  req.set_adversarial_client_rate(adv);
  req.set_estimated_dropout_rate(drop);
  req.set_adversary_class(cls);
  bool ok = CheckFullGraphParameters(n, t, req).ok();
  c.log << "n=" << n << " t=" << t << " adv=" << adv << " drop=" << drop
        << " class=" << cls << " ok=" << ok;
  bool ranges = n > 0 && t > 1 && t <= n && adv >= 0 && adv < 1 && drop >= 0 &&
                drop < 1;
  if (!ranges) {
    PBT_CHECK(!ok, "out-of-range parameters accepted");
    return;
  }
  c.nontrivial();
  // Real-valued conditions with a guard band against rounding.
  double eps = 1e-9;
  bool must_fail = t < (1 - drop) * n - eps;
  bool must_pass = t >= std::ceil((1 - drop) * n + eps);
  if (cls == AdversaryClass::CURIOUS_SERVER) {
    must_fail = must_fail || t <= adv * n - eps;
    must_pass = must_pass && t > std::ceil(adv * n + eps);
  } else if (cls == AdversaryClass::SEMI_MALICIOUS_SERVER) {
    must_fail = must_fail || t <= (n + adv * n) / 2 - eps;
    must_pass = must_pass && t > std::ceil((n + adv * n) / 2 + eps);
  }
  if (must_fail) PBT_CHECK(!ok, "insecure threshold accepted");
  if (must_pass) PBT_CHECK(ok, "secure threshold refused");
  c.label(ok ? "accepted" : "refused");
}

void Distribution(pbt::Src& s, pbt::Case& c) {
  int total = s.small(0, 400), marked = s.range(0, total),
      sampled = s.range(0, total);
  if (s.chance(1, 15)) {
    int which = s.draw(3);
    auto bad = HypergeometricDistribution::Create(
        which == 0 ? -1 : total, which == 1 ? total + 1 : marked,
        which == 2 ? total + 1 : sampled);
    PBT_CHECK(!bad.ok(), "invalid distribution accepted");
    return;
  }
  if (total == 0 || sampled == 0) return;
  auto d = HypergeometricDistribution::Create(total, marked, sampled);
  PBT_CHECK(d.ok(), "valid distribution refused");
  c.log << "total=" << total << " marked=" << marked << " sampled=" << sampled;
  c.nontrivial(marked > 0 && sampled > 0);
  long double cum = 0;
  for (int x = 0; x <= sampled; ++x) {
    long double p = Pmf(total, marked, sampled, x);
    cum += p;
    double got = (*d)->PMF(x);
    PBT_CHECK(std::fabs(got - (double)p) <= 1e-9 * (double)p + 1e-300,
              "PMF(" << x << ") = " << got << " expected " << (double)p);
    double cdf = (*d)->CDF(x);
    PBT_CHECK(std::fabs(cdf - (double)cum) <= 1e-9, "CDF(" << x << ") = " << cdf
                                                   << " expected " << (double)cum);
  }
  // Quantiles are rounded outwards: P[X <= q] does not exceed the quantile.
  double q = std::pow(2, -s.range(1, 60));
  double lo = (*d)->FindQuantile(q);
  PBT_CHECK((double)Lower(total, marked, sampled, (int)lo) <= q * (1 + 1e-6),
            "lower quantile " << lo << " has too much mass for " << q);
  double hi = (*d)->FindQuantile(q, true);
  PBT_CHECK((double)Upper(total, marked, sampled, (int)hi + 1) <= q * (1 + 1e-6),
            "upper quantile " << hi << " leaves too much mass for " << q);
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S08",
      "all client counts to 140, odd degrees and thresholds; requirement grids "
      "for the parameter search; non-trivial when the graph has 4+ clients and "
      "degree 3+, or parameters were found or judged",
      {{"graphs", Graphs, 15000, 300000},
       {"parameters", Parameters, 6000, 60000},
       {"full graph", FullGraph, 60000, 900000},
       {"distribution", Distribution, 8000, 150000}});
}
