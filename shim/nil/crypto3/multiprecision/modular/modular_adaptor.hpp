#ifndef VERIF_SHIM_MODULAR_MODULAR_ADAPTOR_HPP
#define VERIF_SHIM_MODULAR_MODULAR_ADAPTOR_HPP
#include <nil/crypto3/multiprecision/shim_core.hpp>
#endif
