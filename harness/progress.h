// Contract of progress reporting: no effect; the user may cancel when `progress::cancel` allows it.
#pragma once
#include "v.h"
#include <vrs/ProgressLogger.h>
namespace vrs {
ProgressLogger::ProgressLogger(bool, double) {}
ProgressLogger::~ProgressLogger() {}
void ProgressLogger::setStepCount(int) {}
void ProgressLogger::setDetailedProgress(bool) {}
bool ProgressLogger::logNewStep(const string&, size_t, size_t) { return true; }
bool ProgressLogger::logStatus(const string&, int) { return true; }
bool ProgressLogger::logDuration(const string&, double, int) { return true; }
bool ProgressLogger::logProgress(const string&, size_t, size_t, bool) { return true; }
void ProgressLogger::logMessage(const string&) {}
void ProgressLogger::logErrorMessage(const string&) {}
void ProgressLogger::updateStep(size_t, size_t) {}
void ProgressLogger::updateNextProgressTime() {}
bool ProgressLogger::shouldKeepGoing() { return true; }
}
