#define PART 1
#include "h_cont.cpp"
