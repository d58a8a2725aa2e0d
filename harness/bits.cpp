// C22: the bit counts behind block matching and capacity rounding, against their definition for every nonzero value. Internal interface.
#include "vf.h"
#include <tpp/sparse_set.hpp>
typedef uint64_t u64;
using namespace tpp::_detail;
extern "C" void vf_main()
{
	switch (vf_choose("op", 2)) {
	case 0: { // one bit position at a time; the bits above it are free
		const unsigned w = unsigned(vf_choose("width", 3)); const unsigned bits = 16u << w, at = unsigned(vf_choose("bit", 16u << w)); const u64 v = (vf_sym("bits", 64) << at) | (u64(1) << at);
		const u64 x = bits == 64 ? v : v & ((u64(1) << bits) - 1);
		VF_CHECK((w == 0 ? ctz(uint16_t(x)) : w == 1 ? ctz(uint32_t(x)) : ctz(x)) == at, "the trailing zero bits are counted");
		VF_CHECK((w == 0 ? generic_ctz(uint16_t(x)) : w == 1 ? generic_ctz(uint32_t(x)) : generic_ctz(x)) == at, "the portable count of trailing zero bits");
		break; }
	case 1: { // ... the bits below it are free
		const unsigned w = unsigned(vf_choose("width", 3)); const unsigned bits = 16u << w, at = unsigned(vf_choose("bit", 16u << w)); const u64 x = (vf_sym("bits", 64) & ((u64(1) << at) - 1)) | (u64(1) << at);
		VF_CHECK((w == 0 ? clz(uint16_t(x)) : w == 1 ? clz(uint32_t(x)) : clz(x)) == bits - 1 - at, "the leading zero bits are counted");
		VF_CHECK((w == 0 ? generic_clz(uint16_t(x)) : w == 1 ? generic_clz(uint32_t(x)) : generic_clz(x)) == bits - 1 - at, "the portable count of leading zero bits");
		break; }
	}
	vf_cover("end");
}
