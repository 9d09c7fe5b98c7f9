// LIBS: fcp_secagg_client fcp_secagg_server
// S01: completed sessions yield the exact sum of the included inputs.
#define VERIF_DETRAND_DEFINE
#include "detrand.h"
#include "secagg_sim.h"

namespace {
void Sessions(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  sim::Session(s, c, sim::Options{}).Run();
}
void Threads(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  sim::Options o;
  o.threads = true;
  sim::Session(s, c, o).Run();
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S01",
      "whole sessions of 2-40 real clients and the real server; message and "
      "task order, dropouts, silence and aborts at any point; non-trivial when "
      "a session of 3+ clients completes",
      {{"sessions", Sessions, 5000, 120000}, {"threads", Threads, 600, 12000}});
}
