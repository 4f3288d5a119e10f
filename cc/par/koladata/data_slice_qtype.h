#ifndef VERIF_KD_DATA_SLICE_QTYPE_H_
#define VERIF_KD_DATA_SLICE_QTYPE_H_
#include "koladata/data_slice.h"
#endif
