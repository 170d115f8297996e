#pragma once
// Parse-only StrCat: accepts every argument (newer Abseil also takes AbslStringify types).
#include <string>
#include "absl/strings/numbers.h"
#include "absl/strings/string_view.h"
namespace absl {
struct Hex { template <typename T, typename... A> explicit Hex(T, A...) {} };
struct Dec { template <typename T, typename... A> explicit Dec(T, A...) {} };
enum PadSpec : uint8_t { kNoPad = 1, kZeroPad2, kZeroPad3, kZeroPad4, kZeroPad5, kZeroPad6, kZeroPad7, kZeroPad8 };
class AlphaNum { public: template <typename T> AlphaNum(const T&) {} absl::string_view Piece() const; const char* data() const; size_t size() const; };
template <typename... A> std::string StrCat(const A&...);
template <typename... A> void StrAppend(std::string*, const A&...);
}
