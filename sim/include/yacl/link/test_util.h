#pragma once
#include "yacl/link/link.h"
namespace yacl::link::test {
std::vector<std::shared_ptr<Context>> SetupWorld(const std::string& id, size_t n);
inline std::vector<std::shared_ptr<Context>> SetupWorld(size_t n) { return SetupWorld("sim", n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(const std::string& id, size_t n) { return SetupWorld(id, n); }
inline std::vector<std::shared_ptr<Context>> SetupBrpcWorld(size_t n) { return SetupWorld("sim", n); }
}
