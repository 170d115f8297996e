#pragma once
#include "absl/log/verif_log_model.h"
#define ABSL_LOG(sev) ABSL_MODEL_LOG_##sev
#define ABSL_LOG_IF(sev, cond) !::absl_model::LogCondition(cond) ? (void)0 : ::absl_model::Voidify() && ABSL_MODEL_LOG_##sev
#define ABSL_LOG_FIRST_N(sev, n) ABSL_MODEL_LOG_##sev
#define ABSL_LOG_EVERY_N(sev, n) ABSL_MODEL_LOG_##sev
#define ABSL_LOG_EVERY_N_SEC(sev, n) ABSL_MODEL_LOG_##sev
#define ABSL_VLOG(n) !::absl_model::VlogIsOn(n) ? (void)0 : ::absl_model::Voidify() && ABSL_MODEL_LOG_INFO
#define ABSL_DLOG(sev) ABSL_MODEL_LOG_##sev
#define ABSL_VLOG_IS_ON(n) ::absl_model::VlogIsOn(n)
#define ABSL_LOG_EVERY_POW_2(sev) ABSL_MODEL_LOG_##sev
