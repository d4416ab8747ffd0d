#include "cudadummy.hpp"
