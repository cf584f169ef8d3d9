#define PART 2
#include "h_cont.cpp"
