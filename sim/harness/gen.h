// Plan generators shared by the properties.
#pragma once
#include "h.h"

namespace h
{
// Generates histories; keeps a copy of the reference model so that most operations make sense.
struct Gen
{
    Rng r;
    Plan p;
    Model m;
    VolCfg v;
    std::vector<std::string> names;    // component pool
    std::map<int, std::pair<NodeP, int>> hs;    // handle -> node, accmode (-1 = directory)
    int max_handles = 4;
    uint64_t max_size = 40000;
    std::vector<uint64_t> far;    // sometimes offsets are near one of these
    int max_depth = 3;
    explicit Gen(const char* prop, uint64_t seed);
    void config(int full);    // -1 random
    void finish_config();
    static std::vector<unsigned>& blocks_l_();
    static std::vector<unsigned>& blocks_f_();
    std::string comp();
    std::string any_path(int kind);    // kind: KF/KD/KL, -1 any; "" when there is none
    std::string dir_path();
    std::string new_path();
    uint64_t pos(uint64_t cap);    // an offset or length biased to block boundaries
    uint64_t far_pos();
    void pick_far(bool thorough);
    // Emits one random operation of kind `k`; returns false when it is not applicable.
    bool emit(const std::string& k);
    bool fits(const Op& o);
    void fill(const std::vector<std::pair<const char*, int>>& weights, int n);
    void apply(const Op& op);    // keep the generator's model in step
};
std::vector<std::string> unicode_names();
}    // namespace h
