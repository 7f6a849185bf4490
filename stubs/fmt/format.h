// Declarations only, for reading the sources with clang (the real fmt 9 needs -fpermissive, which clang lacks).
#pragma once
#include <string>
#include <string_view>
#include <ostream>
namespace fmt {
struct format_parse_context { const char* begin() const; const char* end() const; };
struct appender {};
struct format_context { using iterator = appender; appender out(); };
template <typename T, typename Enable = void> struct formatter;
template <typename... A> std::string format(std::string_view, const A&...);
template <typename... A> appender format_to(appender, std::string_view, const A&...);
template <typename T> std::string to_string(const T&);
template <typename R> struct join_view { const R* range; std::string_view sep; };
template <typename R> join_view<R> join(const R&, std::string_view);
template <typename... A> void print(std::string_view, const A&...);
}
