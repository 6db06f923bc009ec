#pragma once
#include "fmt.h"
#include "gen.h"

namespace h
{
using W = std::vector<std::pair<const char*, int>>;
void settle(Engine& e, const Op& op, Model& m, const std::map<Node*, Node*>& before, bool post,
            bool damage_ok, const char* when);
void add_crashes(Gen& g, int n, bool power, size_t from);
}    // namespace h
