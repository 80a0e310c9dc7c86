#pragma once
#include <string_view>
namespace ion {
inline constexpr std::string_view BUILD_VERSION = "0.1.11";
inline constexpr std::string_view SERVER_HEADER = "ion";
}
