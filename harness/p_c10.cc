// LIBS: fcp_client pbt
// C10: sessions of the HTTP protocol client against a model server.
#include "fc_session.h"
#include "pbt/pbt.h"

namespace {

void Sessions(pbt::Src& s, pbt::Case& c) {
  fakes::SessionOptions o;
  fakes::Session(s, c, o).Run();
}

void Faults(pbt::Src& s, pbt::Case& c) {
  fakes::SessionOptions o;
  o.quiet = 5;
  fakes::Session(s, c, o).Run();
}

}  // namespace

int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "C10",
                   "sessions that got past the first request",
                   {{"sessions", Sessions, 50000, 500000}, {"faults", Faults, 25000, 250000}},
                   /*hang_is_violation=*/true, 8, 30);
}
