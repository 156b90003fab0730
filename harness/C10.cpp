// C10: shift_right
#include "shift_common.hpp"
std::vector<Test> pbt::tests() { return {{"shift_right", run<false>, false, 500000, 8000000}, {"shift_right_all", run<false>, true, 1, 1}}; }
