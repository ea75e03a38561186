// The serialization registration of the kernels, once, as an application has to do it.
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
