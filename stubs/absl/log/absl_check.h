#pragma once
#include "absl/log/verif_log_model.h"
#define ABSL_MODEL_CHECK(c) (c) ? (void)0 : ::absl_model::Voidify() && ::absl_model::CheckFailure()
#define ABSL_CHECK(c) ABSL_MODEL_CHECK(c)
#define ABSL_QCHECK(c) ABSL_MODEL_CHECK(c)
#define ABSL_CHECK_OK(s) ABSL_MODEL_CHECK(::absl_model::AsStatus(s).ok())
#define ABSL_QCHECK_OK(s) ABSL_MODEL_CHECK(::absl_model::AsStatus(s).ok())
#define ABSL_CHECK_EQ(a, b) ABSL_MODEL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_MODEL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_MODEL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_MODEL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_MODEL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_MODEL_CHECK((a) >= (b))
// Release semantics: a DCHECK neither tests nor guards anything.
#define ABSL_MODEL_DCHECK(c) while (false && (c)) ::absl_model::LogInfo()
#define ABSL_DCHECK(c) ABSL_MODEL_DCHECK(c)
#define ABSL_DCHECK_OK(s) ABSL_MODEL_DCHECK(::absl_model::AsStatus(s).ok())
#define ABSL_DCHECK_EQ(a, b) ABSL_MODEL_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) ABSL_MODEL_DCHECK((a) != (b))
#define ABSL_DCHECK_LT(a, b) ABSL_MODEL_DCHECK((a) < (b))
#define ABSL_DCHECK_LE(a, b) ABSL_MODEL_DCHECK((a) <= (b))
#define ABSL_DCHECK_GT(a, b) ABSL_MODEL_DCHECK((a) > (b))
#define ABSL_DCHECK_GE(a, b) ABSL_MODEL_DCHECK((a) >= (b))
