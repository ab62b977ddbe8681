#pragma once
#include <fmt/format.h>
namespace fmt { struct text_style {}; enum class color { red, green, blue, yellow, orange, white, cyan, magenta }; template <class T> inline text_style fg(T) { return {}; } }
