#pragma once
#include "graph.h"
struct FpFormat { uint32_t eb, mb; };
static const FpFormat F64{11, 52}, F32{8, 23};
void fpMul(const Lit* x, const Lit* y, FpFormat f, Lit* o);
void fpDiv(const Lit* x, const Lit* y, FpFormat f, Lit* o);
void fpAdd(const Lit* x, const Lit* y, FpFormat f, bool minus, Lit* o);
void fpConvert(const Lit* x, FpFormat from, FpFormat to, Lit* o);
void fpFromInt(const Lit* x, uint32_t w, bool isSigned, FpFormat f, Lit* o);
void fpToInt(const Lit* x, FpFormat f, bool isSigned, uint32_t w, Lit* o, Lit* bad);
Lit fpLess(const Lit* x, const Lit* y, FpFormat f, Lit* eq, Lit* unordered);
