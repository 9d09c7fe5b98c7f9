// LIBS: fcp_client pbt
// C11: results of confidential tasks leave the client only encrypted to a
// verified key, and otherwise not at all.
#include "fc_session.h"
#include "pbt/pbt.h"

namespace {

void Sessions(pbt::Src& s, pbt::Case& c) {
  fakes::SessionOptions o;
  o.confidential = true;
  o.quiet = 25;
  fakes::Session(s, c, o).Run();
}

void Faults(pbt::Src& s, pbt::Case& c) {
  fakes::SessionOptions o;
  o.confidential = true;
  o.quiet = 8;
  fakes::Session(s, c, o).Run();
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C11",
                   "sessions that got past the first request",
                   {{"sessions", Sessions, 25000, 250000}, {"faults", Faults, 12000, 120000}},
                   /*hang_is_violation=*/true, 8, 30);
}
