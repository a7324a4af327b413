// constants of the program under analysis, read from its own headers
#include "util/common.h"
#include "garbled_circuit/garbled_circuit_util.h"
#include "util/util.h"
#define X(n) extern "C" { extern const long long vp_##n = (long long)(n); }
X(ANDGATE) X(ANDNGATE) X(NANDGATE) X(NANDNGATE) X(ORGATE) X(ORNGATE) X(NORGATE) X(NORNGATE)
X(XORGATE) X(XNORGATE) X(NOTGATE) X(DFFGATE) X(SECRET) X(SECRET_INV) X(SUCCESS) X(FAILURE)
X(CONST_ZERO) X(CONST_ONE)
