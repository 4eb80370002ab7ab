// fmt as installed here may be older than println; what the command prints is not looked at, but it is formatted
#pragma once
#ifndef FMT_HEADER_ONLY
#define FMT_HEADER_ONLY
#endif
#include_next <fmt/format.h>
#if FMT_VERSION < 100000
namespace fmt {
template<typename... T>
void println(format_string<T...> f, T&&... args)
{
    (void)fmt::format(f, std::forward<T>(args)...);
}
template<typename... T>
void println(std::FILE*, format_string<T...> f, T&&... args)
{
    (void)fmt::format(f, std::forward<T>(args)...);
}
}  // namespace fmt
#endif
