#define HX_TU "2"
#include "ops_tol.inc"
