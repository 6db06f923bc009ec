#pragma once
// Stub of the (uninstalled) uni-algo library, backed by ICU in core/unialgo.cpp.
#include <string>
#include <string_view>
namespace una {
namespace cases {
std::string to_casefold_utf8(std::string_view);
std::string to_lowercase_utf8(std::string_view);
std::string to_uppercase_utf8(std::string_view);
}
namespace caseless {
int compare_utf8(std::string_view, std::string_view);
}
namespace casesens {
int compare_utf8(std::string_view, std::string_view);
}
}
