// Parse-only model of Abseil logging: enough for the static analyser to type-check the code and to see
// which statements terminate the process.
#pragma once
#include <ostream>
#include <string>
#include "absl/status/status.h"
#include "absl/status/statusor.h"
namespace absl_model {
struct LogStream {
  template <typename T> LogStream& operator<<(const T&) { return *this; }
  LogStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
  LogStream& WithPerror() { return *this; }
  LogStream& NoPrefix() { return *this; }
};
struct FatalStream {
  template <typename T> FatalStream& operator<<(const T&) { return *this; }
  FatalStream& WithPerror() { return *this; }
};
inline LogStream LogInfo() { return {}; }
inline LogStream LogWarning() { return {}; }
inline LogStream LogError() { return {}; }
[[noreturn]] FatalStream LogFatal();
[[noreturn]] FatalStream CheckFailure();
inline bool LogCondition(bool b) { return b; }
bool VlogIsOn(int);
inline const absl::Status& AsStatus(const absl::Status& s) { return s; }
template <typename T> const absl::Status& AsStatus(const absl::StatusOr<T>& s) { return s.status(); }
struct Voidify { template <typename T> void operator&&(T&&) const {} };
}  // namespace absl_model
#define ABSL_MODEL_LOG_INFO ::absl_model::LogInfo()
#define ABSL_MODEL_LOG_WARNING ::absl_model::LogWarning()
#define ABSL_MODEL_LOG_ERROR ::absl_model::LogError()
#define ABSL_MODEL_LOG_FATAL ::absl_model::LogFatal()
#define ABSL_MODEL_LOG_QFATAL ::absl_model::LogFatal()
#define ABSL_MODEL_LOG_DFATAL ::absl_model::LogError()
