// The standard library's own configuration with the pre-instantiated templates switched off, so that
// every std function used by the code under verification has a body in the extracted program.
#pragma once
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
