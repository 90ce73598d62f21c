// Symbolic bit-vector operations on literal arrays.
#pragma once
#include "graph.h"
#include "ir.h"
inline Lit* lalloc(uint32_t n) { return (Lit*)arenaAlloc(n * sizeof(Lit)); }
void bvAdd(const Lit* a, const Lit* b, Lit cin, uint32_t w, Lit* o, Lit* cout = nullptr);
void bvNot(const Lit* a, uint32_t w, Lit* o);
void bvRing(char op, const Lit* a, const Lit* b, uint32_t w, Lit* o); // '+', '-', '*' with ring identities applied
void bvRingAlias(char op, const Lit* a, const Lit* b, uint32_t w, const Lit* bits, Lit* o); // the same when the bits of the result are known
void bvMul(const Lit* a, const Lit* b, uint32_t w, Lit* o);
void bvUdivrem(const Lit* a, const Lit* b, uint32_t w, Lit* q, Lit* r);
void bvShift(int kind, const Lit* a, const Lit* sh, uint32_t w, Lit* o); // 0 shl 1 lshr 2 ashr
Lit bvEq(const Lit* a, const Lit* b, uint32_t w);
Lit bvUlt(const Lit* a, const Lit* b, uint32_t w);
Lit bvSlt(const Lit* a, const Lit* b, uint32_t w);
void bvMux(Lit c, const Lit* t, const Lit* f, uint32_t w, Lit* o);
void aesSbox(const Lit* in, Lit* out, bool inv);
void aesRound(int kind, const Lit* st, const Lit* key, Lit* out); // 0 enc 1 enclast 2 dec 3 declast
void aesImc(const Lit* in, Lit* out);
void aesKeygen(const Lit* in, uint8_t rcon, Lit* out);
void aesSelfTest();
