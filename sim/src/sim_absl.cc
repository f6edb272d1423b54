// absl is installed built against its own string_view; libspu is compiled with
// std::string_view. These two entry points bridge the difference.
#include <cstdlib>
#include <limits>
#include "absl/strings/numbers.h"
#include "absl/strings/str_split.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace numbers_internal {
bool safe_strtou64_base(std::string_view s, uint64_t* v, int base) {
  size_t i = 0, n = s.size();
  while (i < n && std::isspace(static_cast<unsigned char>(s[i]))) ++i;
  while (n > i && std::isspace(static_cast<unsigned char>(s[n - 1]))) --n;
  *v = 0;
  if (i == n) return false;
  for (; i < n; ++i) {
    int d = s[i] - '0';
    if (d < 0 || d >= base) return false;
    if (*v > (std::numeric_limits<uint64_t>::max() - d) / base) { *v = std::numeric_limits<uint64_t>::max(); return false; }
    *v = *v * base + d;
  }
  return true;
}
}  // namespace numbers_internal
std::string_view ByChar::Find(std::string_view t, size_t pos) const {
  size_t f = t.find(c_, pos);
  if (f == std::string_view::npos) return std::string_view(t.data() + t.size(), 0);
  return t.substr(f, 1);
}
ABSL_NAMESPACE_END
}  // namespace absl
