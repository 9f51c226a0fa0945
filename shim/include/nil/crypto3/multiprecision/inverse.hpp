#ifndef VERIF_SHIM_INVERSE_HPP
#define VERIF_SHIM_INVERSE_HPP
#include <nil/crypto3/multiprecision/modular/modular_adaptor.hpp>
#endif
