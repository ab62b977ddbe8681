// Log statements are dropped from the extracted program (their arguments are not evaluated).
#pragma once
#include <string>
#include <fmt/format.h>
#include <logging/LogLevel.h>
template <class... A>
inline int V_drop(const A&...) { return 0; }
#define V_DROP_LOG(...) ((void)(false ? V_drop(__VA_ARGS__) : 0))
#define XR_LOGD(...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGI(...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGW(...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGE(...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGD_EVERY_N_SEC(n, ...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGI_EVERY_N_SEC(n, ...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGW_EVERY_N_SEC(n, ...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGE_EVERY_N_SEC(n, ...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGCD(c, ...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGCI(c, ...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGCW(c, ...) V_DROP_LOG(__VA_ARGS__)
#define XR_LOGCE(c, ...) V_DROP_LOG(__VA_ARGS__)
