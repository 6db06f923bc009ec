#pragma once
// Stub of the (uninstalled) uni-algo library; conversion helpers are used on Windows only.
#include <string>
#include <string_view>
namespace una {
bool is_valid_utf8(std::string_view);
}
