// Stand-in: the lattice encryption of the cheetah protocol needs SEAL, which is not
// installed here. Homomorphic products are replaced (sim/src/sim_cheetah_he.cc).
#pragma once
#include "yacl/base/buffer.h"
#include "yacl/base/int128.h"
#include "libspu/core/prelude.h"
