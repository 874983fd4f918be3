// stand-in: the plain integers come from Boost.Multiprecision
#include <boost/multiprecision/cpp_int.hpp>
