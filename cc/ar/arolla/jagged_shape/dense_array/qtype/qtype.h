#include "arolla/jagged_shape/dense_array/jagged_shape.h"
