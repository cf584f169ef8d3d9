#define PART 3
#include "h_cont.cpp"
