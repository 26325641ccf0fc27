// C17: stored floats and coordinates.
#include "pbt.hpp"
#include "fiftyone.h"
#include "coordinate.h"
using namespace pbt;
namespace {
uint32_t genBits(Src &s) {
	uint32_t m, e;
	switch (s.below(5)) {
	case 0: e = 0; break;
	case 1: e = 1; break;
	case 2: e = (uint32_t)s.range(253, 255); break;
	default: e = (uint32_t)s.below(256);
	}
	switch (s.below(6)) {
	case 0: m = (uint32_t)s.below(4); break;
	case 1: m = 0x7FFFFF - (uint32_t)s.below(4); break;
	case 2: m = 1u << s.below(23); break;
	default: m = (uint32_t)s.below(1 << 23);
	}
	return (uint32_t)s.below(2) << 31 | e << 23 | m;
}
// The number IEEE 754 gives a finite pattern, computed in double arithmetic.
double denote(uint32_t b) {
	uint32_t e = b >> 23 & 255, m = b & 0x7FFFFF;
	double v = e == 0 ? ldexp((double)m, -149) : ldexp((double)(m | 0x800000), (int)e - 150);
	return b >> 31 ? -v : v;
}
bool sameNumber(float a, float b) { // but for the sign of an infinity
	if (std::isnan(b)) return std::isnan(a);
	if (std::isinf(b)) return std::isinf(a);
	return a == b;
}
void one(uint32_t b) {
	float f; memcpy(&f, &b, 4);
	uint32_t e = b >> 23 & 255, m = b & 0x7FFFFF;
	fiftyoneDegreesFloatInternal st;
	memcpy(st.value, &b, 4);
	float n = fiftyoneDegreesFloatToNative(st);
	if (e != 255) {
		CHECK((double)n == denote(b), "stored bits %08x denote %.17g, converted to %.17g", b, denote(b), n);
		fiftyoneDegreesFloatInternal r = fiftyoneDegreesNativeToFloat(f);
		uint32_t rb; memcpy(&rb, r.value, 4);
		if ((b & 0x7FFFFFFF) == 0) CHECK((rb & 0x7FFFFFFF) == 0, "zero stored as %08x", rb);
		else CHECK(rb == b, "native %.9g (%08x) stored as %08x", f, b, rb);
		CHECK(fiftyoneDegreesFloatToNative(r) == f, "native %.9g came back as %.9g", f, fiftyoneDegreesFloatToNative(r));
		CHECK(fiftyoneDegreesFloatIsEqual(st, st) == 0, "a stored number differs from itself");
		if ((b & 0x7FFFFFFF) != 0) CHECK(fiftyoneDegreesFloatIsEqual(st, r) == 0, "round trip compares unequal");
	} else {
		if (m == 0x7FFFFF) CHECK(std::isinf(n), "the infinity pattern converted to %g", n);
		if (m != 0 && m != 0x7FFFFF) CHECK(std::isnan(n), "pattern %08x converted to %g", b, n);
		fiftyoneDegreesFloatInternal r = fiftyoneDegreesNativeToFloat(f);
		float back = fiftyoneDegreesFloatToNative(r);
		if (m == 0) CHECK(std::isinf(back), "infinity came back as %g", back);
		else CHECK(std::isnan(back), "NaN came back as %g", back);
	}
	// whichever representation the build selects
	fiftyoneDegreesFloat nf = FIFTYONE_DEGREES_NATIVE_TO_FLOAT(f);
	float nn = FIFTYONE_DEGREES_FLOAT_TO_NATIVE(nf);
	CHECK(sameNumber(nn, f), "the selected representation changed %.9g into %.9g", f, nn);
}
void bits(Src &s) {
	bool sub = false;
	for (int i = 0; i < 64; i++) {
		uint32_t b = genBits(s);
		if (i < 8) log("bits %08x", b);
		sub |= (b & 0x7F800000) == 0 && (b & 0x7FFFFF) != 0;
		one(b);
	}
	// a contiguous run, so that neighbours are covered as well
	uint32_t start = (uint32_t)s.below(1ULL << 32);
	log("run from %08x", start);
	for (uint32_t i = 0; i < 1000; i++) one(start + i);
	if (sub) { nontrivial(); label("subnormals"); }
}
void equality(Src &s) {
	uint32_t a = genBits(s), b = s.chance(1, 3) ? a : s.chance(1, 2) ? a ^ (1u << s.below(32)) : genBits(s);
	fiftyoneDegreesFloatInternal x, y; memcpy(x.value, &a, 4); memcpy(y.value, &b, 4);
	log("%08x %08x", a, b);
	CHECK((fiftyoneDegreesFloatIsEqual(x, y) == 0) == (a == b), "equality of %08x and %08x", a, b);
	if (a != b) nontrivial();
}
void coordinate(Src &s) {
	char buf[16]; memset(buf, 0x33, sizeof buf);
	fiftyoneDegreesString *str = (fiftyoneDegreesString *)malloc(sizeof(fiftyoneDegreesString));
	str->size = (int16_t)9;
	bool good = s.chance(3, 4);
	str->value = good ? (char)FIFTYONE_DEGREES_STRING_COORDINATE : (char)s.below(256);
	if (!good && str->value == FIFTYONE_DEGREES_STRING_COORDINATE) good = true;
	uint32_t a = genBits(s), b = genBits(s);
	memcpy((char *)&str->trail.coordinate.lat, &a, 4); memcpy((char *)&str->trail.coordinate.lon, &b, 4);
	log("coordinate %08x %08x type %d", a, b, str->value);
	fiftyoneDegreesCollectionItem it; memset(&it, 0, sizeof it);
	it.data.ptr = (byte *)str; it.data.used = 11;
	FIFTYONE_DEGREES_EXCEPTION_CREATE;
	fiftyoneDegreesCoordinate c = fiftyoneDegreesIpiGetCoordinate(&it, exception);
	if (good) {
		CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "a coordinate was refused");
		uint32_t st[2] = { a, b }; float got[2] = { c.lat, c.lon };
		for (int i = 0; i < 2; i++) {
			if ((st[i] >> 23 & 255) == 255) CHECK(!std::isfinite(got[i]), "coordinate %d is %g", i, got[i]);
			else CHECK((double)got[i] == denote(st[i]), "coordinate %d is %.9g instead of %.9g", i, got[i], denote(st[i]));
		}
		nontrivial();
	} else {
		CHECK(!FIFTYONE_DEGREES_EXCEPTION_OKAY && exception->status == FIFTYONE_DEGREES_STATUS_CORRUPT_DATA, "a string of another type was read as a coordinate");
		label("not a coordinate");
	}
	free(str);
}
// Thorough: 2^32 patterns in 4096 blocks, each case one block chosen by index order.
void blocks(Src &s) {
	uint32_t blk = (uint32_t)s.below(4096);
	log("block %u", blk);
	uint32_t stride = G().thorough ? 1 : 101;
	for (uint64_t i = s.below(stride); i < (1u << 20); i += stride) one((uint32_t)(blk << 20 | i));
	nontrivial();
}
}
int main(int argc, char **argv) {
	suite("bits", bits, 20000, 200000, "64 patterns biased to subnormals, extremes and special values, plus a run of 1000 neighbours; non-trivial = contains a subnormal");
	suite("equality", equality, 100000, 1000000, "pairs equal, one bit apart, or unrelated; non-trivial = unequal pair");
	suite("coordinate", coordinate, 50000, 500000, "stored coordinates and strings of other types; non-trivial = a coordinate");
	suite("blocks", blocks, 8000, 16000, "patterns spread over one of 4096 blocks of 2^20 (every pattern of the block in the thorough tier); all non-trivial");
	Options o; o.assumptions = { "as the header documents, the sign of an infinity and of NaN is not kept, and infinity is stored with all mantissa bits set",
		"little-endian IEEE machine" };
	o.caseCpu = 60;
	return runMain(argc, argv, o);
}
