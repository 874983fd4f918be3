#ifndef VERIF_SHIM_CPP_INT_MODULAR_HPP
#define VERIF_SHIM_CPP_INT_MODULAR_HPP
#include <nil/crypto3/multiprecision/shim_core.hpp>
#endif
