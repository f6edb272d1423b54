#pragma once
#include <memory>
#include <string>
#include <string_view>
#include "spdlog/spdlog.h"
#include "yacl/base/byte_container_view.h"
namespace yacl::link {
class TraceLogger {
 public:
  virtual ~TraceLogger() = default;
  static void SetLogger(std::shared_ptr<TraceLogger> l) { slot() = std::move(l); }
  static void LinkTrace(std::string_view e, std::string_view t, std::string_view c) { if (slot()) slot()->LinkTraceImpl(e, t, c); }
 protected:
  virtual void LinkTraceImpl(std::string_view event, std::string_view tag, std::string_view content) = 0;
 private:
  static std::shared_ptr<TraceLogger>& slot() { static std::shared_ptr<TraceLogger> s; return s; }
};
}  // namespace yacl::link
