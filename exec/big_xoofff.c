#define BIG_NOMAIN
#include "big.h"
#include "config.h"
#ifdef XKCP_has_Xoofff
#include "Xoofff.h"
#include "XoofffModes.h"
#include "big_ff.inc"
FF(Xoofff, Xoofff, Xoofff_MaskDerivation, Xoofff_Compress, Xoofff_Expand, Xoofff)
#endif
