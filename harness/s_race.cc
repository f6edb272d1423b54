// Data races: other scenarios, run with happens-before race detection on the code under test.
#include "h.h"
using namespace h;
namespace {
struct All {
  All() {
    for (const char* n : {"correct_semi2k", "correct_aby3", "correct_cheetah", "correct_securenn", "forks_semi2k", "forks_aby3", "forks_other", "executor_semi2k",
                          "executor_aby3", "executor_other", "cache_forks", "cache_faults", "beaver_tuples", "beaver_rpc", "beaver_server", "collectives", "math_semi2k", "math_aby3",
                          "math_other", "move_semi2k", "move_aby3", "move_other", "colocated_semi2k", "colocated_other", "permanent_semi2k", "permanent_aby3", "permanent_other"}) {
      const std::string base = n;
      scenarios().push_back({"race_" + base, [base](Run& r) {
        r.races = true;
        for (auto& s : scenarios()) if (s.name == base) { s.fn(r); return; }
      }});
    }
  }
} all;
}  // namespace
