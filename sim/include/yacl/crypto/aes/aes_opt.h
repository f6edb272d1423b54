#pragma once
#include "yacl/crypto/block_cipher/symmetric_crypto.h"
