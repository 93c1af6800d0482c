// The C++ model of the low-level interfaces in /repo/doc: SnP and PlSnP objects per slot, the permutations and their steps.
#include <memory>
extern "C" {
#include "exec.h"
}
#include "Exception.h"
#include "SnP.h"
#include "PlSnP.h"
#include "Keccak-p.h"
#include "Xoodoo.h"
using namespace std;
static unique_ptr<SnP> single_[NSLOT];
static unique_ptr<PlSnP> par_[NSLOT];
static const unsigned width[] = { 25, 50, 100, 200, 400, 800, 1600 };

static set<unsigned> rounds(uint64_t mask) { set<unsigned> s; for (unsigned i = 0; i < 40; i++) if (mask >> i & 1) s.insert(i); return s; }
static RoundCountParameterizedPermutation *perm(uint64_t kind) { if (kind < 7) return new KeccakP(width[kind]); return new Xoodoo(); }
static int64_t hashOf(const string &s) { int64_t h = 0; for (unsigned char c : s) h = (h * 131 + c) & 0xFFFFFFFFFFFF; return h; }

static void lanesIn(vector<LaneValue> &a, const unsigned char *p) { for (size_t i = 0; i < a.size(); i++) { a[i] = 0; for (int j = 0; j < 8; j++) a[i] |= (LaneValue)p[8 * i + j] << (8 * j); } }
static void lanesOut(const vector<LaneValue> &a, unsigned char *p) { for (size_t i = 0; i < a.size(); i++) for (int j = 0; j < 8; j++) p[8 * i + j] = (unsigned char)(a[i] >> (8 * j)); }
static void xin(XoodooState &s, const unsigned char *p) { for (unsigned y = 0; y < 3; y++) for (unsigned x = 0; x < 4; x++) { LaneValue v = 0; for (int j = 0; j < 4; j++) v |= (LaneValue)p[16 * y + 4 * x + j] << (8 * j); s.getLanes()[3 * x + y] = v; } }
// lanes with bits above the lane size give -7
static int64_t xout(const XoodooState &s, unsigned char *p) { int64_t r = 0; for (unsigned y = 0; y < 3; y++) for (unsigned x = 0; x < 4; x++) { LaneValue v = s.getLane(x, y); if (v >> 32) r = -7; for (int j = 0; j < 4; j++) p[16 * y + 4 * x + j] = (unsigned char)(v >> (8 * j)); } return r; }

static int body(xop *x)
{
    const uint64_t *i = x->i; unsigned char *in = x->in[0].p, *out = x->out[0].p;
    if (x->sub < P_) {
        unique_ptr<SnP> &s = single_[x->slot];
        switch (x->sub) {
        case S_INIT: if (i[0] >= 100) s->Initialize();                                     // a new one of the given kind, or the one there is again
            else if (i[1]) s.reset(new SnP(perm(i[0]), (unsigned)i[2], rounds(i[1]), (unsigned)i[3]));
            else if (i[0] == 7) s.reset(new SnP_Xoodoo());
            else s.reset(new SnP_KeccakP(width[i[0]]));
            return 0;
        case S_ADDBYTE: s->AddByte((unsigned char)i[1], (unsigned)i[0]); return 0;
        case S_ADDBYTES: s->AddBytes(in, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_OVERWRITE: s->OverwriteBytes(in, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_OVERZERO: s->OverwriteWithZeroes((unsigned)i[0]); return 0;
        case S_PERM: if (i[0]) s->Permute_Nrounds((unsigned)i[1]); else s->Permute(); return 0;
        case S_EXTRACT: s->ExtractBytes(out, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_EXTRACTADD: s->ExtractAndAddBytes(in, out, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_FASTLOOP: x->ret = (int64_t)s->FastLoop_Absorb((unsigned)i[0], in, x->in[0].n); return 0;
        }
        return 1;
    }
    if (x->sub < S_DQUERY) {
        unique_ptr<PlSnP> &s = par_[x->slot];
        switch (x->sub - P_) {
        case S_INIT: if (i[0] >= 100) s->InitializeAll(); else s.reset(new PlSnP(perm(i[0]), (unsigned)i[4], (unsigned)i[2], rounds(i[1]), (unsigned)i[3])); return 0;
        case S_ADDBYTE: s->AddByte((unsigned)i[2], (unsigned char)i[1], (unsigned)i[0]); return 0;
        case S_ADDBYTES: s->AddBytes((unsigned)i[2], in, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_OVERWRITE: s->OverwriteBytes((unsigned)i[2], in, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_OVERZERO: s->OverwriteWithZeroes((unsigned)i[2], (unsigned)i[0]); return 0;
        case S_PERM: if (i[0]) s->PermuteAll_Nrounds((unsigned)i[1]); else s->PermuteAll(); return 0;
        case S_EXTRACT: s->ExtractBytes((unsigned)i[2], out, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_EXTRACTADD: s->ExtractAndAddBytes((unsigned)i[2], in, out, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_ADDLANES: s->AddLanesAll(in, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_OVERLANES: s->OverwriteLanesAll(in, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_EXTRACTLANES: s->ExtractLanesAll(out, (unsigned)i[0], (unsigned)i[1]); return 0;
        case S_EXTRACTADDLANES: s->ExtractAndAddLanesAll(in, out, (unsigned)i[0], (unsigned)i[1]); return 0;
        }
        return 1;
    }
    switch (x->sub) {
    case S_DQUERY: {
        if (i[0] == 5) { KeccakP p((unsigned)i[1]); x->ret = p.getWidth(); return 0; }        // any width: only seven are accepted
        if (i[0] < 3) { SnP &s = *single_[x->slot]; x->ret = i[0] == 0 ? s.getWidth() : i[0] == 1 ? s.getDefaultRoundCount() : s.getLaneSizeInBytes(); return 0; }
        if (i[0] == 3) { PlSnP &s = *par_[x->slot]; x->ret = i[1] == 0 ? s.getWidth() : i[1] == 1 ? s.getDefaultRoundCount() : i[1] == 2 ? s.getLaneSizeInBytes() : s.getNumberOfInstances(); return 0; }
        if (i[0] == 4) { unique_ptr<RoundCountParameterizedPermutation> p(perm(i[1])); x->ret = i[2] ? hashOf(p->getDescription()) : p->getWidth(); return 0; }
        if (i[0] == 6) { KeccakP p(width[i[1]]); x->ret = i[2] ? p.getNominalNumberOfRounds() : p.getLaneSize(); return 0; }
        return 1; }
    case S_KAPPLY: { unique_ptr<RoundCountParameterizedPermutation> p(perm(i[0])); vector<uint8_t> v(in, in + x->in[0].n); p->apply(v, (unsigned)i[1]); memcpy(out, v.data(), x->out[0].n); x->ret = (int64_t)v.size(); return 0; }
    case S_KSTEP: {
        KeccakP p(width[i[0]]); vector<LaneValue> a(25); lanesIn(a, in);
        switch (i[1]) { case 0: p.theta(a); break; case 1: p.rho(a); break; case 2: p.pi(a); break; case 3: p.chi(a); break; case 4: p.iota(a, (int)(int64_t)i[2]); break; case 5: p.round(a, (int)(int64_t)i[2]); break; case 6: p.ROL(a[0], (int)(int64_t)i[2]); break; default: return 1; }
        lanesOut(a, out); return 0; }
    case S_KCONST: { KeccakP p(width[i[0]]); x->ret = (int64_t)p.getRoundConstant((int)(int64_t)i[1]); return 0; }
    case S_KINDEX: {
        int a = (int)(int64_t)i[0], b = (int)(int64_t)i[1]; unsigned X, Y;
        KeccakP::pi(KeccakP::index(a), KeccakP::index(b), X, Y);
        x->ret = KeccakP::index(a, b) | KeccakP::index(a) << 8 | X << 16 | Y << 24; return 0; }
    case S_XSTEP: {
        Xoodoo p; XoodooState s(p); xin(s, in);
        switch (i[0]) {
        case 0: p.theta(s); break; case 1: p.rhoWest(s); break; case 2: p.chi(s); break; case 3: p.rhoEast(s); break;
        case 4: p.inverseTheta(s); break; case 5: p.inverseRhoWest(s); break; case 6: p.inverseChi(s); break; case 7: p.inverseRhoEast(s); break;
        case 8: p.thetaTransposed(s); break; case 9: p.inverseThetaTransposed(s); break;
        case 10: s.translateXZ((int)(int64_t)i[1], (int)(int64_t)i[2]); break;
        case 11: p.round(s, (LaneValue)i[1]); break;
        default: return 1;
        }
        x->ret = xout(s, out); return 0; }
    case S_XPERM: { Xoodoo p; XoodooState s(p); xin(s, in); p.permute(s, (unsigned)i[0]); x->ret = xout(s, out); return 0; }
    case S_XPOS: {
        Xoodoo p; int a = (int)(int64_t)i[1], b = (int)(int64_t)i[2], c = (int)(int64_t)i[3], X = 0, Y = 0, Z = 0;
        switch (i[0]) { case 0: p.rhoWest(a, b, c, X, Y, Z); break; case 1: p.rhoEast(a, b, c, X, Y, Z); break; case 2: p.inverseRhoWest(a, b, c, X, Y, Z); break; case 3: p.inverseRhoEast(a, b, c, X, Y, Z); break;
        case 4: X = a; Z = b; p.translateXZ(X, Z, (int)(int64_t)i[4], c); break;
        case 5: X = a; Y = b; Z = c; p.reduceXYZ(X, Y, Z); break; default: return 1; }
        x->ret = X | Y << 8 | Z << 16; return 0; }
    case S_XBIT: {      // a bit or a column of a state is read and changed
        Xoodoo p; XoodooState s(p); xin(s, in); unsigned a = (unsigned)i[1], y = (unsigned)i[2], z = (unsigned)i[3], v = (unsigned)i[4], n = z + 32 * (a + 4 * y);
        switch (i[0]) {
        case 0: x->ret = s.getBit(n); s.setBit(n, (int)v); break;
        case 1: x->ret = s.getBit(a, y, z); if (v) s.setBitToOne(a, y, z); else s.setBitToZero(a, y, z); break;
        case 2: x->ret = (int64_t)s.getLane(a, y); s.invertBit(a, y, z); break;
        case 3: x->ret = s.getColumn(a, z); s.setColumn(a, z, (ColumnValue)v); break;
        case 4: x->ret = s.getColumn(a, z); s.addToColumn(a, z, (ColumnValue)v); break;
        case 5: x->ret = translateColumn((ColumnValue)v, (int)(int64_t)i[5]); break;
        case 6: x->ret = hashOf(s.getDisplayString(a, v)); break;
        default: return 1;
        }
        if (xout(s, out)) x->ret = -7; return 0; }
    case S_XLANES: {
        Xoodoo p; XoodooState s(p), t(p); xin(s, in); xin(t, x->in[1].p);
        switch (i[0]) { case 0: s ^= t; break; case 1: s &= t; break; case 2: s |= t; break; case 3: s.clear(); break; case 4: s = t; break; default: return 1; }
        x->ret = s.isZero(); if (xout(s, out)) x->ret = -7; return 0; }
    }
    return 1;
}
static int f_doc(xctx *, xop *x)
{
    try { return body(x); }
    catch (const Exception &e) { x->ret = e.reason.empty() ? -2 : -1; return 0; }
}
extern "C" { extern const xmod xv_mod_doc; const xmod xv_mod_doc = { M_DOC, f_doc, 0, 1 }; }
