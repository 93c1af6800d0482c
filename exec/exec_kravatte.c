#include "exec.h"
#include "config.h"
#ifdef XKCP_has_Kravatte
#include "Kravatte.h"
#include "KravatteModes.h"
#define P_INST Kravatte_Instance
#define P_MPRF M_KRA
#define P_MSANE M_KRASANE
#define P_MSANSE M_KRASANSE
#define P_MWBC M_KRAWBC
#define P_FPRF f_kra
#define P_FSANE f_krasane
#define P_FSANSE f_krasanse
#define P_FWBC f_krawbc
#define P_ISANE Kravatte_SANE_Instance
#define P_ISANSE Kravatte_SANSE_Instance
#define P_MASK Kravatte_MaskDerivation
#define P_COMPRESS Kra
#define P_EXPAND Vatte
#define P_BOTH Kravatte
#define P_NSANE(f) Kravatte_SANE##f
#define P_NSANSE(f) Kravatte_SANSE##f
#define P_NWBC(f) Kravatte_WBC##f
#define P_NWBCAE(f) Kravatte_WBCAE##f
#include "farfalle.inc"
const xmod xv_mod_kra = { M_KRA, f_kra, sizeof(P_INST), __alignof__(P_INST) };
const xmod xv_mod_krasane = { M_KRASANE, f_krasane, sizeof(P_ISANE), __alignof__(P_ISANE) };
const xmod xv_mod_krasanse = { M_KRASANSE, f_krasanse, sizeof(P_ISANSE), __alignof__(P_ISANSE) };
const xmod xv_mod_krawbc = { M_KRAWBC, f_krawbc, sizeof(P_INST), __alignof__(P_INST) };
#endif
