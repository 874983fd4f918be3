#ifndef VERIF_SHIM_BOOST_NUMBER_HPP
#define VERIF_SHIM_BOOST_NUMBER_HPP
#include <nil/crypto3/multiprecision/shim_core.hpp>
#endif
