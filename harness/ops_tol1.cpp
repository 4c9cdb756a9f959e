#define HX_TU "1"
#include "ops_tol.inc"
