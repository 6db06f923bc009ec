#pragma once
#include "gen.h"

namespace h
{
Plan gen_free(const char* id, uint64_t seed, bool thorough);
void run_free(Plan& p);
}    // namespace h
