#include "exec.h"
#include "config.h"
#ifdef XKCP_has_Xoofff
#include "Xoofff.h"
#include "XoofffModes.h"
#define P_INST Xoofff_Instance
#define P_MPRF M_XFF
#define P_MSANE M_XFFSANE
#define P_MSANSE M_XFFSANSE
#define P_MWBC M_XFFWBC
#define P_FPRF f_xff
#define P_FSANE f_xffsane
#define P_FSANSE f_xffsanse
#define P_FWBC f_xffwbc
#define P_ISANE XoofffSANE_Instance
#define P_ISANSE XoofffSANSE_Instance
#define P_MASK Xoofff_MaskDerivation
#define P_COMPRESS Xoofff_Compress
#define P_EXPAND Xoofff_Expand
#define P_BOTH Xoofff
#define P_NSANE(f) XoofffSANE##f
#define P_NSANSE(f) XoofffSANSE##f
#define P_NWBC(f) XoofffWBC##f
#define P_NWBCAE(f) XoofffWBCAE##f
#include "farfalle.inc"
const xmod xv_mod_xff = { M_XFF, f_xff, sizeof(P_INST), __alignof__(P_INST) };
const xmod xv_mod_xffsane = { M_XFFSANE, f_xffsane, sizeof(P_ISANE), __alignof__(P_ISANE) };
const xmod xv_mod_xffsanse = { M_XFFSANSE, f_xffsanse, sizeof(P_ISANSE), __alignof__(P_ISANSE) };
const xmod xv_mod_xffwbc = { M_XFFWBC, f_xffwbc, sizeof(P_INST), __alignof__(P_INST) };
#endif
