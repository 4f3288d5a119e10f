#include "double-conversion/double-to-string.h"
