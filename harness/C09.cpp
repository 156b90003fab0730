// C09: shift_left
#include "shift_common.hpp"
std::vector<Test> pbt::tests() { return {{"shift_left", run<true>, false, 500000, 8000000}, {"shift_left_all", run<true>, true, 1, 1}}; }
