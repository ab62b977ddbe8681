// Contract of the error registry (see C31): registering a domain error yields a nonzero status.
#pragma once
#include "v.h"
#include <vrs/ErrorCode.h>
namespace vrs {
int domainErrorCode(ErrorDomain, int64_t, const char*) { return (int)V_range("domain error", 10000, 2000000000); }
std::string errorCodeToMessage(int) { return "error"; }
std::string errorCodeToMessageWithCode(int) { return "error"; }
}
