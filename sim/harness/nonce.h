#pragma once
#include "h.h"
#include <unordered_set>
namespace h
{
// What must not be seen in clear: recognised by any 8 bytes of it.
struct Secrets
{
    std::unordered_set<uint64_t> w8, w16;
    void add(const std::string& s, bool text, bool cases = true);
    int found(std::string_view d) const;    // 1 as it is, 2 encoded

private:
    void windows(const std::string& s, size_t stride);
    void encoded(const std::string& s);
};
struct Watch
{
    struct Impl;
    std::shared_ptr<Impl> im;
    explicit Watch(const VolCfg& v);
    ~Watch();
    void secret(const std::string& s, bool text);
    void before(const Op& op);    // what the operation brings is secret
    void after(const Op& op);     // reports what was found
    void config(const Op& op, const std::string& content);
};
}    // namespace h
