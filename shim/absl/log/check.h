#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/absl_log.h"
#define CHECK(cond) ABSL_LOG_IF(FATAL, !(cond)) << "Check failed: " #cond " "
#define CHECK_OK(expr) ABSL_LOG_IF(FATAL, !(expr).ok()) << "Check failed: " #expr
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#endif
