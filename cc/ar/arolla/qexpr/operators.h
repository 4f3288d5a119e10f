#include "arolla/qexpr/bound_operators.h"
