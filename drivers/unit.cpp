// One translation unit of the program of units.cpp. The compiler is told to include one header of
// xme before this text, or all of them in some order.
#include "../harness/uses.hpp"
