// the point dump executable
#include "src/exe/LB_PointDump.cpp"
