#ifndef DCGP_CONFIG_HPP
#define DCGP_CONFIG_HPP

// Start of defines instantiated by CMake.
// clang-format off
#define DCGP_VERSION_STRING "1.6.1"
#define DCGP_VERSION_MAJOR 1
#define DCGP_VERSION_MINOR 6


#endif
