#include "cuda.h"
