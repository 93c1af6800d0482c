#include "exec.h"
#include "config.h"
#include "align.h"
#ifdef XKCP_has_KeccakP1600
#include "KeccakP-1600-SnP.h"
#define XP KeccakP1600
#define XST KeccakP1600_state
#define XMOD M_P1600
#define XFN f_p1600
#define X_HAS24
#ifdef KeccakF1600_FastLoop_supported
#define X_FL24 KeccakF1600_FastLoop_Absorb
#endif
#ifdef KeccakP1600_12rounds_FastLoop_supported
#define X_FL12 KeccakP1600_12rounds_FastLoop_Absorb
#endif
#include "snp.inc"
#endif
#ifdef XKCP_has_KeccakP1600times2
#include "KeccakP-1600-times2-SnP.h"
#define XP KeccakP1600times2
#define XPAR 2
#define XST KeccakP1600times2_states
#define XMOD M_P1600X2
#define XFN f_p1600x2
#define X_HAS24
#ifdef KeccakF1600times2_FastLoop_supported
#define X_FL24 KeccakF1600times2_FastLoop_Absorb
#endif
#ifdef KeccakP1600times2_12rounds_FastLoop_supported
#define X_FL12 KeccakP1600times2_12rounds_FastLoop_Absorb
#endif
#ifdef KeccakF1600times2_FastKravatte_supported
#define X_KRAV
#endif
#include "plsnp.inc"
#endif
#ifdef XKCP_has_KeccakP1600times4
#include "KeccakP-1600-times4-SnP.h"
#define XP KeccakP1600times4
#define XPAR 4
#define XST KeccakP1600times4_states
#define XMOD M_P1600X4
#define XFN f_p1600x4
#define X_HAS24
#ifdef KeccakF1600times4_FastLoop_supported
#define X_FL24 KeccakF1600times4_FastLoop_Absorb
#endif
#ifdef KeccakP1600times4_12rounds_FastLoop_supported
#define X_FL12 KeccakP1600times4_12rounds_FastLoop_Absorb
#endif
#ifdef KeccakF1600times4_FastKravatte_supported
#define X_KRAV
#endif
#include "plsnp.inc"
#endif
#ifdef XKCP_has_KeccakP1600times8
#include "KeccakP-1600-times8-SnP.h"
#define XP KeccakP1600times8
#define XPAR 8
#define XST KeccakP1600times8_states
#define XMOD M_P1600X8
#define XFN f_p1600x8
#define X_HAS24
#ifdef KeccakF1600times8_FastLoop_supported
#define X_FL24 KeccakF1600times8_FastLoop_Absorb
#endif
#ifdef KeccakP1600times8_12rounds_FastLoop_supported
#define X_FL12 KeccakP1600times8_12rounds_FastLoop_Absorb
#endif
#ifdef KeccakF1600times8_FastKravatte_supported
#define X_KRAV
#endif
#ifdef KeccakP1600times8_KT128ProcessLeaves_supported
#define X_KT128 KeccakP1600times8_KT128ProcessLeaves
#endif
#ifdef KeccakP1600times8_KT256ProcessLeaves_supported
#define X_KT256 KeccakP1600times8_KT256ProcessLeaves
#endif
#include "plsnp.inc"
#endif

#ifdef XKCP_has_KeccakP1600
const xmod xv_mod_p1600 = { M_P1600, f_p1600, sizeof(KeccakP1600_state), __alignof__(KeccakP1600_state) };
#endif
#ifdef XKCP_has_KeccakP1600times2
const xmod xv_mod_p1600x2 = { M_P1600X2, f_p1600x2, sizeof(KeccakP1600times2_states), __alignof__(KeccakP1600times2_states) };
#endif
#ifdef XKCP_has_KeccakP1600times4
const xmod xv_mod_p1600x4 = { M_P1600X4, f_p1600x4, sizeof(KeccakP1600times4_states), __alignof__(KeccakP1600times4_states) };
#endif
#ifdef XKCP_has_KeccakP1600times8
const xmod xv_mod_p1600x8 = { M_P1600X8, f_p1600x8, sizeof(KeccakP1600times8_states), __alignof__(KeccakP1600times8_states) };
#endif
