// LIBS: fcp_secagg_client fcp_secagg_server
// S03: the client's state machine under arbitrary operation sequences.
#define VERIF_DETRAND_DEFINE
#include "detrand.h"
#include "secagg_client_sim.h"

namespace {
void Ops(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  csim::Client k(s, c);
  k.Check();
  int n = s.range(3, 14);
  int misplaced = 0;
  for (int i = 0; i < n; ++i) {
    switch (s.weighted({k.phase == csim::kNew ? 6 : 1, 3, 1, 1, 1, 12})) {
      case 0:
        k.Start();
        break;
      case 1:
        k.SetInput(s.chance(3, 4));
        break;
      case 2:
        if (s.chance(1, 3)) k.Abort();
        break;
      case 3:
        if (s.chance(1, 3)) k.ServerAbort(s.flip());
        break;
      case 4:
        k.Message(-1, true);
        break;
      default: {
        int kind = k.phase;
        bool ok = true;
        if (s.chance(1, 3) || (kind != csim::kShare && kind != csim::kMasked &&
                               kind != csim::kUnmask)) {
          kind = s.of<int>({csim::kShare, csim::kMasked, csim::kUnmask});
        }
        if (kind != k.phase) ++misplaced;
        if (s.chance(1, 6)) ok = false;
        k.Message(kind, ok);
      }
    }
  }
  c.label("ended in phase " + std::to_string(k.phase));
  c.nontrivial(k.phase >= csim::kMasked && misplaced > 0);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S03",
      "random sequences of start, input, abort and server messages, valid, "
      "invalid or misplaced, against a model of the stages; non-trivial when "
      "the client got past key sharing and saw a misplaced message",
      {{"ops", Ops, 24000, 600000}});
}
