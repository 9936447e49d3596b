#pragma once
#include "scenario.h"

// Execute one scenario in the current process (called in a forked child).
//  baseline_task >= 0: only that zone, alone, no faults, quiet environment
//  baseline_task <  0: the scenario itself; B holds the baselines
//  resume: continue from the checkpoint in B (after a simulated crash)
void execute(const Scenario &s, int baseline_task, const simrt::Shared *B, bool resume);
