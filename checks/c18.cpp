// C18: string helpers.  Every string lies at the very end of its own heap block.
#include "pbt.hpp"
#include "fiftyone.h"
using namespace pbt;
namespace {
struct Exact { // a copy whose byte after the last is unreadable
	char *p; size_t n;
	explicit Exact(const std::string &s, bool nul) : n(s.size() + (nul ? 1 : 0)) { p = (char *)malloc(n ? n : 1); memcpy(p, s.data(), s.size()); if (nul) p[s.size()] = 0; if (n == 0) { free(p); p = (char *)malloc(1); p++; } }
	~Exact() { if (n == 0) free(p - 1); else free(p); }
};
int lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int sign(int x) { return x < 0 ? -1 : x > 0; }
int ref(const std::string &a, const std::string &b) {
	for (size_t i = 0; i < a.size() && i < b.size(); i++) { int d = lower(a[i]) - lower(b[i]); if (d) return sign(d); }
	return a.size() < b.size() ? -1 : a.size() > b.size();
}
std::string gen(Src &s, bool nulOk) {
	size_t n = (size_t)s.small(0, 40); std::string r;
	int alpha = (int)s.below(4);
	if (s.chance(1, 100)) { // long ones
		n = (size_t)(s.chance(1, 12) ? s.range(65500, 70000) : s.range(250, 700)); label(n > 1000 ? "tens of thousands of characters" : "hundreds of characters");
		uint64_t seed = s.below(1ull << 32), kinds = s.chance(1, 2) ? 1000 : 2;
		for (size_t i = 0; i < n; i++) { uint64_t h = mix(seed + i) >> 9; char c = h % kinds == 0 ? "aAbB"[h / kinds % 4] : alpha < 2 ? 'a' : alpha == 2 ? (char)0xE9 : (char)(h >> 20); if (c == 0 && !nulOk) c = 'x'; r += c; }
		return r;
	}
	for (size_t i = 0; i < n; i++) {
		char c;
		if (alpha == 0) c = "aAbB"[s.below(4)];
		else if (alpha == 1) c = "aAzZ@[`{_-"[s.below(10)];
		else if (alpha == 2) c = (char)s.range(128, 255);
		else c = (char)s.below(256);
		if (c == 0 && !nulOk) c = 'x';
		r += c;
	}
	return r;
}
std::string variant(Src &s, std::string a, bool nulOk) { // a close relative of a
	switch (s.below(5)) {
	case 0: for (auto &c : a) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return a;
	case 1: if (!a.empty()) { size_t i = s.below(a.size()); a[i] ^= (char)(1 << s.below(8)); if (a[i] == 0 && !nulOk) a[i] = 1; } return a;
	case 2: return a.substr(0, s.below(a.size() + 1));
	case 3: return a + gen(s, nulOk);
	default: return gen(s, nulOk);
	}
}
void compare(Src &s) {
	std::string a = gen(s, false), b = variant(s, a, false), c = variant(s, b, false);
	Exact x(a, true), y(b, true), z(c, true);
	log("%s %s %s", quote(a.substr(0, 3000)).c_str(), quote(b.substr(0, 3000)).c_str(), quote(c.substr(0, 3000)).c_str());
	int ab = sign(fiftyoneDegreesStringCompare(x.p, y.p)), ba = sign(fiftyoneDegreesStringCompare(y.p, x.p));
	int bc = sign(fiftyoneDegreesStringCompare(y.p, z.p)), ac = sign(fiftyoneDegreesStringCompare(x.p, z.p));
	CHECK(fiftyoneDegreesStringCompare(x.p, x.p) == 0, "a string differs from itself");
	CHECK(ab == -ba, "comparison is not antisymmetric: %d %d", ab, ba);
	CHECK((ab == 0) == (ref(a, b) == 0), "equality ignoring case: got %d", ab);
	bool ascii = true; for (char ch : a + b) ascii &= (ch & 0x80) == 0;
	if (ascii) CHECK(ab == ref(a, b), "order of %s and %s is %d", quote(a.substr(0, 3000)).c_str(), quote(b.substr(0, 3000)).c_str(), ab);
	if (ab <= 0 && bc <= 0) CHECK(ac <= 0, "comparison is not transitive");
	if (ab >= 0 && bc >= 0) CHECK(ac >= 0, "comparison is not transitive");
	if (ab == 0 && bc == 0) CHECK(ac == 0, "equality is not transitive");
	if (!ascii) label("bytes above 127");
	if (ab == 0 && a != b) label("equal ignoring case only");
	if (a.size() > 1 && !b.empty() && lower(a[0]) == lower(b[0])) nontrivial();
}
void compareLength(Src &s) {
	std::string a = gen(s, true), b = variant(s, a, true);
	size_t n = s.below(std::min(a.size(), b.size()) + 1);
	if (s.chance(1, 2)) n = std::min(a.size(), b.size());
	Exact x(a.substr(0, n), false), y(b.substr(0, n), false);
	log("%s %s length %zu", quote(a.substr(0, 3000)).c_str(), quote(b.substr(0, 3000)).c_str(), n);
	int d = sign(fiftyoneDegreesStringCompareLength(x.p, y.p, n));
	int want = 0; bool ascii = true;
	for (size_t i = 0; i < n; i++) { ascii &= ((a[i] | b[i]) & 0x80) == 0; int e = lower(a[i]) - lower(b[i]); if (e && !want) want = sign(e); }
	CHECK((d == 0) == (want == 0), "got %d, expected %d", d, want);
	if (ascii) CHECK(d == want, "got %d, expected %d", d, want);
	CHECK(sign(fiftyoneDegreesStringCompareLength(y.p, x.p, n)) == -d, "not antisymmetric");
	if (n > 1 && lower(a[0]) == lower(b[0])) nontrivial();
}
void substring(Src &s) {
	std::string a = gen(s, false), b;
	if (s.chance(1, 3)) a = s.chars("aAbB", (size_t)s.range(0, 14));
	switch (s.below(4)) {
	case 0: b = a.empty() ? "" : a.substr(s.below(a.size())); b = variant(s, b, false); break;
	case 1: if (!a.empty()) { size_t i = s.below(a.size()); b = a.substr(i, s.below(a.size() - i) + 1); } for (auto &c : b) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } break;
	case 2: b = s.chars("aAbB", (size_t)s.range(1, 4)); break;
	default: b = gen(s, false);
	}
	if (b.empty()) b = "a";
	Exact x(a, true), y(b, true);
	log("%s in %s", quote(b.substr(0, 3000)).c_str(), quote(a.substr(0, 3000)).c_str());
	char *p = fiftyoneDegreesStringSubString(x.p, y.p);
	long want = -1;
	for (size_t i = 0; i + b.size() <= a.size() && want < 0; i++) {
		bool eq = true; for (size_t j = 0; j < b.size() && eq; j++) eq = lower(a[i + j]) == lower(b[j]);
		if (eq) want = (long)i;
	}
	long got = p == nullptr ? -1 : p - x.p;
	CHECK(got == want, "found at %ld, first occurrence is %ld", got, want);
	if (want >= 0) label("present"); else label("absent");
	if (want > 0 || (want < 0 && a.size() > 1 && b.size() > 1)) nontrivial();
}
void macros(Src &s) {
	std::string t = gen(s, false); if (t.size() > 32766) t.resize(32766);
	std::vector<char> mem(3 + t.size() + 8);
	fiftyoneDegreesString *str = (fiftyoneDegreesString *)mem.data();
	str->size = (int16_t)(t.size() + 1);
	memcpy(&str->value, t.c_str(), t.size() + 1);
	CHECK(FIFTYONE_DEGREES_STRING(str) == &str->value && t == FIFTYONE_DEGREES_STRING(str), "string content");
	fiftyoneDegreesString *none = nullptr;
	CHECK(FIFTYONE_DEGREES_STRING(none) == nullptr, "null string");
	str->value = s.chance(1, 2) ? (char)FIFTYONE_DEGREES_STRING_IP_ADDRESS : (char)s.below(8);
	const char *ip = FIFTYONE_DEGREES_IP_ADDRESS(str);
	CHECK((ip != nullptr) == (str->value == FIFTYONE_DEGREES_STRING_IP_ADDRESS) && (ip == nullptr || ip == &str->value + 1), "address content");
	int i = s.chance(1, 2) ? (int)(uint32_t)s.below(1ull << 32) : (int)(1u << s.below(32)) * (int)s.below(2); // truth as an integer and back
	CHECK(fiftyoneDegreesIntToBool(i) == (i != 0), "%d is %s", i, fiftyoneDegreesIntToBool(i) ? "true" : "false");
	CHECK(fiftyoneDegreesBoolToInt(i != 0) == (i != 0 ? 1 : 0), "truth is %d", fiftyoneDegreesBoolToInt(i != 0));
	log("%s %d", quote(t.substr(0, 3000)).c_str(), i);
	if (!t.empty()) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("compare", compare, 150000, 6000000, "three related strings over four alphabets; non-trivial = first two start alike");
	suite("compareLength", compareLength, 150000, 6000000, "two related byte ranges, unreadable past the given length; non-trivial = ranges of 2 or more starting alike");
	suite("substring", substring, 200000, 8000000, "needles cut from the haystack, extended past its end, mutated or unrelated; non-trivial = present after the start, or absent");
	suite("macros", macros, 20000, 200000, "string item content access; non-trivial = non-empty");
	Options o; o.assumptions = { "C locale; an empty needle is not exercised; the order of bytes above 127 is only required to be consistent" };
	return runMain(argc, argv, o);
}
