#include "exec.h"
#include "config.h"
#include "align.h"
#define XV_A64 __attribute__((aligned(64)))
#ifdef XKCP_has_Xoodoo
#include "Xoodoo-SnP.h"
#define XP Xoodoo
#define XST Xoodoo_state
#define XMOD M_XOO
#define XFN f_xoo
#define X_HAS6
#ifndef Xoodoo_HasNround
#define X_NO_NR
#endif
#if defined(CyclistFullBlocks_supported) && !defined(XV_NO_FULLBLOCKS)
#define X_CYCLIST
#endif
#ifdef Xoodoo_FastXoofff_supported
#define X_XFFF Xoofff
#endif
#include "snp.inc"
const xmod xv_mod_xoo = { M_XOO, f_xoo, sizeof(Xoodoo_state), __alignof__(Xoodoo_state) };
#endif
#ifdef XKCP_has_Xoodootimes4
#include "Xoodoo-times4-SnP.h"
#define XP Xoodootimes4
#define XPAR 4
#define XST Xoodootimes4_states
#define XMOD M_XOOX4
#define XFN f_xoox4
#ifdef Xoodootimes4_FastXoofff_supported
#define X_XFFF Xooffftimes4
#endif
#include "plsnp.inc"
const xmod xv_mod_xoox4 = { M_XOOX4, f_xoox4, sizeof(Xoodootimes4_states), __alignof__(Xoodootimes4_states) };
#endif
#ifdef XKCP_has_Xoodootimes8
#include "Xoodoo-times8-SnP.h"
#define XP Xoodootimes8
#define XPAR 8
#define XST Xoodootimes8_states
#define XMOD M_XOOX8
#define XFN f_xoox8
#ifdef Xoodootimes8_FastXoofff_supported
#define X_XFFF Xooffftimes8
#endif
#include "plsnp.inc"
const xmod xv_mod_xoox8 = { M_XOOX8, f_xoox8, sizeof(Xoodootimes8_states), __alignof__(Xoodootimes8_states) };
#endif
#ifdef XKCP_has_Xoodootimes16
#include "Xoodoo-times16-SnP.h"
#define XP Xoodootimes16
#define XPAR 16
#define XST Xoodootimes16_states
#define XMOD M_XOOX16
#define XFN f_xoox16
#ifdef Xoodootimes16_FastXoofff_supported
#define X_XFFF Xooffftimes16
#endif
#include "plsnp.inc"
const xmod xv_mod_xoox16 = { M_XOOX16, f_xoox16, sizeof(Xoodootimes16_states), __alignof__(Xoodootimes16_states) };
#endif
