// Simulated yacl: exceptions and enforce macros.
#pragma once
#include "spdlog/sinks/stdout_color_sinks.h"
#include "spdlog/spdlog.h"
#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <array>
#include "fmt/format.h"
#include "fmt/ostream.h"
#include "fmt/ranges.h"
#include "yacl/base/int128.h"

namespace yacl {
class Exception : public std::exception {
 public:
  Exception() = default;
  explicit Exception(std::string msg) : msg_(std::move(msg)) {}
  explicit Exception(const char* msg) : msg_(msg) {}
  Exception(const std::string& msg, void**, int) : msg_(msg) {}
  Exception(const std::string& msg, void**, int, bool) : msg_(msg) {}
  const char* what() const noexcept override { return msg_.c_str(); }
  const std::string& stack_trace() const noexcept { return stack_; }
 protected:
  std::string msg_;
  std::string stack_;
};
class RuntimeError : public Exception { using Exception::Exception; };
class LogicError : public Exception { using Exception::Exception; };
class NetworkError : public Exception {
  using Exception::Exception;
};
class IoError : public Exception { using Exception::Exception; };
class InvalidFormat : public IoError { using IoError::IoError; };
class LinkAborted : public IoError { using IoError::IoError; };
class ArgumentError : public LogicError { using LogicError::LogicError; };
class EnforceNotMet : public Exception {
 public:
  EnforceNotMet(const char* file, int line, const char* expr, const std::string& msg)
      : Exception(fmt::format("[Enforce fail at {}:{}] {}. {}", file, line, expr, msg)) {}
  EnforceNotMet(const char* file, int line, const char* expr, const std::string& msg, void**, int)
      : EnforceNotMet(file, line, expr, msg) {}
};
namespace internal {
inline std::string Format() { return {}; }
template <typename... Args>
std::string Format(fmt::string_view f, const Args&... args) {
  return fmt::vformat(f, fmt::make_format_args(args...));
}
template <typename... Args>
std::string Format(const std::string& f, const Args&... args) {
  return fmt::vformat(f, fmt::make_format_args(args...));
}
template <typename... Args>
std::string Format(const char* f, const Args&... args) {
  if constexpr (sizeof...(Args) == 0) return f; else
  return fmt::vformat(f, fmt::make_format_args(args...));
}
}  // namespace internal
template <typename A, typename B>
std::string EnforceCmpMsg(const A& a, const B& b) { return fmt::format("{} vs {}", a, b); }
}  // namespace yacl

#define YACL_ERROR_MSG(...) ::fmt::format("[{}:{}] {}", __FILE__, __LINE__, ::yacl::internal::Format(__VA_ARGS__))
#define YACL_THROW_HELPER(ExceptionName, ...) throw ExceptionName(YACL_ERROR_MSG(__VA_ARGS__))
#define YACL_THROW(...) YACL_THROW_HELPER(::yacl::RuntimeError, __VA_ARGS__)
#define YACL_THROW_LOGIC_ERROR(...) YACL_THROW_HELPER(::yacl::LogicError, __VA_ARGS__)
#define YACL_THROW_IO_ERROR(...) YACL_THROW_HELPER(::yacl::IoError, __VA_ARGS__)
#define YACL_THROW_NETWORK_ERROR(...) YACL_THROW_HELPER(::yacl::NetworkError, __VA_ARGS__)
#define YACL_THROW_INVALID_FORMAT(...) YACL_THROW_HELPER(::yacl::InvalidFormat, __VA_ARGS__)
#define YACL_THROW_ARGUMENT_ERROR(...) YACL_THROW_HELPER(::yacl::ArgumentError, __VA_ARGS__)
#define YACL_THROW_LINK_ABORTED(...) YACL_THROW_HELPER(::yacl::LinkAborted, __VA_ARGS__)
#define YACL_THROW_WITH_STACK(...) YACL_THROW(__VA_ARGS__)

#define YACL_ENFORCE(condition, ...)                                           \
  do {                                                                         \
    if (!(condition)) {                                                        \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, #condition,              \
                                  ::yacl::internal::Format(__VA_ARGS__));      \
    }                                                                          \
  } while (false)

#define YACL_ENFORCE_THAT_IMPL_(op, lhs, rhs, expr, ...)                        \
  do {                                                                          \
    const auto& yacl_l_ = (lhs);                                                \
    const auto& yacl_r_ = (rhs);                                                \
    if (!(yacl_l_ op yacl_r_)) {                                                \
      throw ::yacl::EnforceNotMet(__FILE__, __LINE__, expr,                     \
                                  ::yacl::EnforceCmpMsg(yacl_l_, yacl_r_) + " " \
                                  + ::yacl::internal::Format(__VA_ARGS__));     \
    }                                                                           \
  } while (false)
#define YACL_ENFORCE_EQ(x, y, ...) YACL_ENFORCE_THAT_IMPL_(==, x, y, #x " == " #y, __VA_ARGS__)
#define YACL_ENFORCE_NE(x, y, ...) YACL_ENFORCE_THAT_IMPL_(!=, x, y, #x " != " #y, __VA_ARGS__)
#define YACL_ENFORCE_LE(x, y, ...) YACL_ENFORCE_THAT_IMPL_(<=, x, y, #x " <= " #y, __VA_ARGS__)
#define YACL_ENFORCE_LT(x, y, ...) YACL_ENFORCE_THAT_IMPL_(<, x, y, #x " < " #y, __VA_ARGS__)
#define YACL_ENFORCE_GE(x, y, ...) YACL_ENFORCE_THAT_IMPL_(>=, x, y, #x " >= " #y, __VA_ARGS__)
#define YACL_ENFORCE_GT(x, y, ...) YACL_ENFORCE_THAT_IMPL_(>, x, y, #x " > " #y, __VA_ARGS__)

namespace yacl {
template <typename T>
T CheckNotNull(T&& t) {
  if (t == nullptr) throw EnforceNotMet(__FILE__, __LINE__, "ptr", "must be non-null");
  return std::forward<T>(t);
}
}  // namespace yacl
#define YACL_CHECK_NOTNULL(x) ::yacl::CheckNotNull(x)
