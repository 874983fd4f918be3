#ifndef VERIF_SHIM_WNAF_HPP
#define VERIF_SHIM_WNAF_HPP
#include <nil/crypto3/multiprecision/shim_core.hpp>
#endif
