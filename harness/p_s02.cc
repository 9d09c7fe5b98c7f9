// LIBS: fcp_secagg_client fcp_secagg_server
// S02: what a client discloses, for any server behaviour.
#define VERIF_DETRAND_DEFINE
#include "detrand.h"
#include "secagg_client_sim.h"

namespace {
// A session in order, in which at most one request is bad.
void Disclosure(pbt::Src& s, pbt::Case& c) {
  detrand::Seed(s.draw(0));
  csim::Client k(s, c);
  int bad_at = s.weighted({3, 1, 1, 2});  // 0: none
  int input_at = s.draw(4);
  for (int step = 0; step < 4; ++step) {
    if (step == input_at) k.SetInput(true);
    if (step == 0) {
      k.Start();
    } else if (step == 1) {
      k.Message(csim::kShare, bad_at != 1);
    } else if (step == 2) {
      k.Message(csim::kMasked, bad_at != 2);
    } else {
      k.Message(csim::kUnmask, bad_at != 3);
    }
  }
  // The same requests once more must get nothing out of it.
  for (int i = s.draw(3); i > 0; --i)
    k.Message(s.of<int>({csim::kShare, csim::kMasked, csim::kUnmask}), s.flip());
  c.label(k.phase == csim::kDone ? "disclosed" : "aborted");
  c.nontrivial(k.phase == csim::kDone ? k.n >= 3 : k.phase == csim::kAborted);
}
}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(
      argc, argv, "S02",
      "one real client, server and peers played by the harness; peers die at "
      "any stage and at most one request is invalid; every disclosed share is "
      "decrypted and compared; non-trivial when shares of 3+ clients were "
      "disclosed or an invalid request was refused",
      {{"disclosure", Disclosure, 24000, 600000}});
}
