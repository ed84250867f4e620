// The draws of the library.  Compiled apart from the driver: where the library has no such function, only the operation q_dir is missing.
#include <vector>
#include "fast_random.h"

void draw(const std::vector<double> &params, std::vector<double> *out) { next_dirichlet(params, out); }
