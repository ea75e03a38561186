#define DCV_PER 40000
#include "rng_body.hpp"
