// TIMECOP's annotation, mapped to the analysis
#pragma once
#include "fsym.h"
#define crypto_declassify(p, n) fs_declassify((void*)(p), n)
