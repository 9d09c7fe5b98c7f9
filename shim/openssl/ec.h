#ifndef VERIF_SHIM_OPENSSL_EC_H_
#define VERIF_SHIM_OPENSSL_EC_H_
#include_next "openssl/ec.h"
#include "openssl/nid.h"
// Newer BoringSSL has a static accessor; the packaged one only has the lookup
// (which also returns a static group).
inline const EC_GROUP* EC_group_p256() {
  return EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
}
#endif
