// Field multiplications replaced by the field-polynomial layer (the multiplications themselves: C12).
#pragma once
#include "fsym.h"
#include <string.h>
#include "fields.h"
#define FSTUB(W) \
  bf##W##_t fsr_bf##W##_mul(bf##W##_t a, bf##W##_t b) { uint8_t x[W / 8], y[W / 8], r[W / 8]; bf##W##_store(x, a); bf##W##_store(y, b); fs_gfmul(W, r, x, y); return bf##W##_load(r); }
#define FSTUB64(W) \
  bf##W##_t fsr_bf##W##_mul_64(bf##W##_t a, bf64_t b) { uint8_t x[W / 8], y[W / 8] = {0}, r[W / 8]; bf##W##_store(x, a); bf64_store(y, b); fs_gfmul(W, r, x, y); return bf##W##_load(r); }
FSTUB(64) FSTUB(128) FSTUB(192) FSTUB(256) FSTUB64(128) FSTUB64(192) FSTUB64(256)
