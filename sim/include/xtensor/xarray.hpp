#pragma once
#include "xtensor/xsim.h"
