#pragma once
#include <optional>
namespace llvm { inline constexpr std::nullopt_t None = std::nullopt; template<class T> using Optional = std::optional<T>; }
