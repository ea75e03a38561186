// SANITIZE thread
#define DCV_PER 2000
#include "rng_body.hpp"
