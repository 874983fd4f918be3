#ifndef VERIF_SHIM_RESSOL_HPP
#define VERIF_SHIM_RESSOL_HPP
#include <nil/crypto3/multiprecision/shim_core.hpp>
#endif
