// LIBS: fcp_secagg_client fcp_secagg_server
// S04: misbehaving clients are isolated, the server's reports match history.
#define VERIF_DETRAND_DEFINE
#include "detrand.h"
#include "secagg_sim.h"

namespace {
void Misbehaving(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  sim::Options o;
  o.misbehave = true;
  o.check_server = true;
  sim::Session(s, c, o).Run();
}
void Honest(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  sim::Options o;
  o.check_server = true;
  sim::Session(s, c, o).Run();
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S04",
      "sessions in which clients send empty, misplaced, duplicated or damaged "
      "messages at any point; every server report compared with a model after "
      "every call; non-trivial when a session of 3+ clients completes",
      {{"misbehaving", Misbehaving, 5500, 120000}, {"honest", Honest, 1200, 30000}});
}
