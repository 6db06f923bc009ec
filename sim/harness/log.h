#pragma once
#include "h.h"
#include <set>
namespace h
{
struct Secrets;
extern Secrets* g_secrets;                     // set while output is checked for them
extern std::set<std::string> g_secret_words;    // likewise passwords
extern std::string g_printed;                  // what went to the standard output
extern bool g_unmask;                          // which may contain keys
inline const char* const kMountPassword = "Tr0ub4dor&3";
void log_args(const Plan& p, std::vector<std::string>& args);    // of the mount command
}    // namespace h
