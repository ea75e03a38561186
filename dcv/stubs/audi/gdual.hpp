#include <audi/audi.hpp>
