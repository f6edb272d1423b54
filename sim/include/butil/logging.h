// Stub: brpc's logging hooks (the simulator has no brpc log output).
#pragma once
#include <cstddef>
#include <string>
namespace butil {
class StringPiece {
 public:
  StringPiece() = default;
  StringPiece(const char* p, size_t n) : p_(p), n_(n) {}
  const char* data() const { return p_; }
  size_t size() const { return n_; }
  size_t length() const { return n_; }
 private:
  const char* p_ = "";
  size_t n_ = 0;
};
}  // namespace butil
namespace logging {
constexpr int BLOG_INFO = 0, BLOG_NOTICE = 1, BLOG_WARNING = 2, BLOG_ERROR = 3, BLOG_FATAL = 4;
class LogSink {
 public:
  virtual ~LogSink() = default;
  virtual bool OnLogMessage(int severity, const char* file, int line, const butil::StringPiece& c) = 0;
};
inline LogSink* SetLogSink(LogSink*) { return nullptr; }
inline void SetMinLogLevel(int) {}
}  // namespace logging
