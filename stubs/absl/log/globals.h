#pragma once
#include "absl/base/log_severity.h"
#include "absl/strings/string_view.h"
namespace absl {
void SetStderrThreshold(LogSeverityAtLeast);
void SetMinLogLevel(LogSeverityAtLeast);
int SetGlobalVLogLevel(int);
int SetVLogLevel(absl::string_view, int);
}
