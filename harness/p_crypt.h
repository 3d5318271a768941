#pragma once
#include <cy_core.h>
#include <cy_crypt.h>
#include "vh.h"
#include <string.h>
#include <stdlib.h>
using namespace cyclone;
// heap block of exactly n bytes at alignment offset `off` (so that ASan sees every over-run)
struct Block { uint8_t* base; uint8_t* p; size_t n;
	Block(size_t n_, size_t off) : n(n_) { base = (uint8_t*)malloc(n + off ? n + off : 1); p = base + off; }
	Block(const Block&) = delete; ~Block() { free(base); }
	std::vector<uint8_t> v() const { return std::vector<uint8_t>(p, p + n); } };
