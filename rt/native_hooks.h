#pragma once
#include <immintrin.h>
extern "C" int vf_rdseed64(unsigned long long*);
extern "C" int vf_rdseed32(unsigned*);
#define _rdseed64_step(p) vf_rdseed64((unsigned long long*)(p))
#define _rdseed32_step(p) vf_rdseed32(p)
