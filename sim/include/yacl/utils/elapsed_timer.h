#pragma once
namespace yacl {
class ElapsedTimer { public: explicit ElapsedTimer(bool = true) {} void Restart() {} void Pause() {} void Resume() {} double CountMs() const { return 0; } double CountSec() const { return 0; } };
}
