#include "bitvect_common.h"
#include "libyasm/intnum.h"
#include "bitvect_spec.h"
#include "libyasm/intnum.c"
#include "intnum_spec.h"
