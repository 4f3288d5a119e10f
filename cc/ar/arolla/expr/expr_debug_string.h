#include "arolla/expr/quote.h"
