// XR_VERIFY prints and yields the condition: the print is dropped.
#pragma once
#include <fmt/color.h>
#include <fmt/format.h>
#define XR_VERIFY_C(channel_, condition_, ...) (condition_ ? 1 : 0)
#define XR_VERIFY(cond, ...) XR_VERIFY_C(0, cond)
