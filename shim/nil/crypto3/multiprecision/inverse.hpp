#ifndef VERIF_SHIM_INVERSE_HPP
#define VERIF_SHIM_INVERSE_HPP
#include <nil/crypto3/multiprecision/shim_core.hpp>
#endif
