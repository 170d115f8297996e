#pragma once
#include "absl/strings/str_format.h"
#include "absl/base/nullability.h"
