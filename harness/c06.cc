#include "grad.h"
PBT_MAIN("C06", "arbitrary or polynomial nodal scalar/vector data on random grids with padding 1..4; non-trivial: some non-zero derivative on a 1D or anisotropic grid", gradProp<2>)
