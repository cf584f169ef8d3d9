#define PART 4
#include "h_cont.cpp"
