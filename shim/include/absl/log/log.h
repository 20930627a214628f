// Minimal stand-in for absl/log/log.h (not in the sandbox's abseil).
#ifndef VERIF_SHIM_ABSL_LOG_LOG_H_
#define VERIF_SHIM_ABSL_LOG_LOG_H_
#include "verif_shim_log.h"
#endif
