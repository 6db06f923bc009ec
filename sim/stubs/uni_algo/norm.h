#pragma once
// Stub of the (uninstalled) uni-algo library, backed by ICU in core/unialgo.cpp.
#include <string>
#include <string_view>
namespace una {
namespace norm {
std::string to_nfc_utf8(std::string_view);
std::string to_nfd_utf8(std::string_view);
bool is_nfc_utf8(std::string_view);
bool is_nfd_utf8(std::string_view);
}
}
