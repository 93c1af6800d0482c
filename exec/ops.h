/* Operation codes shared by the executors (C, one per XKCP target) and the driver (C++). */
#ifndef XV_OPS_H
#define XV_OPS_H

/* module numbers: opcode = module*64 + sub-operation */
enum {
    M_P1600 = 0, M_P1600X2, M_P1600X4, M_P1600X8,          /* SnP / PlSnP of Keccak-p[1600] */
    M_XOO, M_XOOX4, M_XOOX8, M_XOOX16,                     /* SnP / PlSnP of Xoodoo */
    M_FIPS, M_SPONGE, M_HASH, M_TURBO,
    M_CSHAKE128, M_CSHAKE256, M_KMAC128, M_KMAC256, M_TUPLE128, M_TUPLE256, M_PARA128, M_PARA256,
    M_K12, M_DUPLEX, M_PRG,
    M_KRA, M_KRASANE, M_KRASANSE, M_KRAWBC,
    M_XFF, M_XFFSANE, M_XFFSANSE, M_XFFWBC,
    M_XDK,
    M_SAFIPS, M_SAKECCAK, M_SAK12, M_SACLI, M_KSUM,         /* Standalone directory, command-line tools */
    M_DOC,                                                  /* the C++ model of the low-level interfaces in the doc directory */
    M_COUNT
};
#define OPC(m, s) ((m) * 64 + (s))

/* generic, for modules with an instance */
#define S_CLONE 62      /* structure copy of instance slot -> slot2 */
#define S_SCRUB 63      /* fill the instance memory of slot with bytes i0 */

/* SnP */
enum { S_INIT = 0, S_ADDBYTE, S_ADDBYTES, S_OVERWRITE, S_OVERZERO, S_PERM, S_EXTRACT, S_EXTRACTADD, S_FASTLOOP, S_FASTLOOP12,
       /* PlSnP */
       S_ADDLANES, S_OVERLANES, S_EXTRACTLANES, S_EXTRACTADDLANES, S_FARCOMP, S_FAREXP,
       /* Xoodoo full-block helpers used by Xoodyak */
       S_FB_ABSK, S_FB_ABSH, S_FB_SQK, S_FB_SQH, S_FB_ENC, S_FB_DEC,
       S_KT128L, S_KT256L, S_ADDIS };
/* permutation selectors (i0) for S_PERM */
enum { PERM_N = 0, PERM_12, PERM_24, PERM_6, PERM_4 };

/* sponge-like */
enum { S_ONESHOT = 0, S_SINIT, S_UPD, S_LASTBITS, S_FINAL, S_SQZ, S_ONESHOT2 };
/* FIPS: S_ONESHOT + function number */
enum { F_SHAKE128 = 0, F_SHAKE256, F_SHA3_224, F_SHA3_256, F_SHA3_384, F_SHA3_512 };

/* duplex */
enum { S_DINIT = 0, S_DUPLEX, S_FEED, S_FEEDZ, S_OVW, S_OVWZ, S_GETOUT, S_GETOUTADD };
/* prg */
enum { S_PINIT = 0, S_PFEED, S_PFETCH, S_PFORGET };
/* Farfalle */
enum { S_MASK = 0, S_COMPRESS, S_EXPAND, S_FARFALLE, S_INITIALIZE, S_WRAP, S_UNWRAP, S_ENC, S_DEC, S_AENC, S_ADEC };
/* Xoodyak */
enum { S_XINIT = 0, S_XABS, S_XENC, S_XDEC, S_XSQ, S_XSQK, S_XRAT };

/* C++ model: SnP operations as above (parallel ones from P_ on), permutations and their steps */
enum { P_ = 20, S_DQUERY = 40, S_KAPPLY, S_KSTEP, S_KCONST, S_KINDEX, S_XSTEP, S_XPERM, S_XPOS, S_XBIT, S_XLANES };
/* op flags */
#define FL_START    1u      /* buffers placed against the front guard page (plus misalignment) instead of the end one */
#define FL_INPLACE  2u      /* out[0] aliases in[0] */
#define FL_CONSTI   4u      /* the call must not modify the instance */
#define FL_NULLZERO 8u      /* pass NULL for empty buffers */
#define FL_SCRUBTAIL 16u    /* reserved */
#define FL_MIS_SHIFT 8      /* 3 bits of misalignment per buffer, in buffer order in0.. out0.. */

/* result status */
enum { ST_OK = 0, ST_UNSUPPORTED, ST_OUTCANARY, ST_INMODIFIED, ST_INSTMODIFIED, ST_INSTCANARY, ST_UNINIT, ST_CRASH = 100 };
#endif
