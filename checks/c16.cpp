// C16: IP address parsing.
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
#include "ip.h"
#include "IpAddress.hpp"
#include <arpa/inet.h>
using namespace pbt;
namespace {
typedef fiftyoneDegreesEvidenceIpAddress Ip;
const int V4 = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV4, V6 = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_IPV6, NONE = FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID;
std::string hex(const uint8_t *b, size_t n) { std::string r; char t[4]; for (size_t i = 0; i < n; i++) { snprintf(t, 4, "%02x", b[i]); r += t; } return r; }
struct Addr { int v; uint8_t b[16]; size_t n() const { return v == V4 ? 4 : 16; } };

std::string spell4(Src &s, const uint8_t *b) {
	std::string r; char t[16];
	for (int i = 0; i < 4; i++) { if (i) r += '.'; snprintf(t, sizeof t, s.chance(1, 8) ? "%03u" : "%u", b[i]); r += t; }
	return r;
}
std::string spell6(Src &s, const uint8_t *b) {
	bool tail = s.chance(1, 4); int groups = tail ? 6 : 8;
	uint16_t g[8]; for (int i = 0; i < 8; i++) g[i] = (uint16_t)(b[2 * i] << 8 | b[2 * i + 1]);
	// choose one run of zero groups to abbreviate
	int from = -1, len = 0; std::vector<std::pair<int, int>> runs;
	for (int i = 0; i < groups; i++) for (int j = i; j < groups && g[j] == 0; j++) runs.push_back({ i, j - i + 1 });
	if (!runs.empty() && s.chance(4, 5)) { auto r = s.pick(runs); from = r.first; len = r.second; }
	std::string out; int upper = (int)s.below(3), pad = (int)s.below(3);
	for (int i = 0; i < groups;) {
		if (i == from) { out += out.empty() ? "::" : ":"; i += len; continue; }   // a group adds its own colon below
		char t[8]; bool u = upper == 1 || (upper == 2 && s.chance(1, 2)), z = pad == 1 || (pad == 2 && s.chance(1, 2));
		snprintf(t, sizeof t, z ? (u ? "%04X" : "%04x") : (u ? "%X" : "%x"), g[i]);
		out += t; i++;
		if (i < groups) out += ':';
	}
	if (tail) { if (out.back() != ':') out += ':'; out += spell4(s, b + 12); }
	return out;
}
Addr genAddr(Src &s, int v) {
	Addr a; a.v = v; memset(a.b, 0, 16);
	int style = (int)s.below(4);
	for (size_t i = 0; i < a.n(); i++) {
		switch (style) {
		case 0: a.b[i] = (uint8_t)s.below(256); break;
		case 1: a.b[i] = (uint8_t)(s.chance(1, 3) ? s.below(256) : 0); break;
		case 2: a.b[i] = (uint8_t)(s.chance(1, 2) ? 255 : s.below(2)); break;
		default: a.b[i] = (uint8_t)s.below(20);
		}
	}
	if (v == V6 && s.chance(1, 3)) { int i = (int)s.below(8), j = (int)s.range(i, 7); memset(a.b + 2 * i, 0, (size_t)(j - i + 1) * 2); }
	return a;
}
// The text in a block of its own: `before` precedes it, `after` follows it, nothing else readable.
struct Text { char *m; const char *start, *end;
	Text(const std::string &before, const std::string &t, const std::string &after) {
		std::string all = before + t + after; m = (char *)malloc(all.size()); memcpy(m, all.data(), all.size());
		start = m + before.size(); end = start + t.size(); }
	~Text() { free(m); } };
void expectAddr(Ip *r, const Addr &a, const std::string &text) {
	CHECK(r != nullptr, "%s was not parsed", text.c_str());
	CHECK((int)r->type == a.v, "%s has type %d instead of %d", text.c_str(), r->type, a.v);
	CHECK(memcmp(r->address, a.b, a.n()) == 0, "%s parsed as %s instead of %s", text.c_str(), hex(r->address, a.n()).c_str(), hex(a.b, a.n()).c_str());
}
void valid(Src &s) {
	alloc::begin();
	Addr a = genAddr(s, s.chance(1, 3) ? V4 : V6);
	std::string t = a.v == V4 ? spell4(s, a.b) : spell6(s, a.b);
	if (a.v == V6) { uint8_t chk[16]; if (inet_pton(AF_INET6, t.c_str(), chk) == 1) CHECK(memcmp(chk, a.b, 16) == 0, "harness: %s is not %s", t.c_str(), hex(a.b, 16).c_str()); }
	static const char *after[] = { "", "\0", ",", " ", "5", "f", ":", ".7", "/24", "]:80", "x" };
	size_t ai = s.below(11);
	std::string tail = ai == 1 ? std::string(1, '\0') : ai == 0 ? std::string(1, '\0') : std::string(after[ai]);
	Text x(s.chance(1, 2) ? "9" : "", t, tail);
	log("%s followed by %s", t.c_str(), quote(tail).c_str());
	Ip *r = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, x.start, x.end);
	expectAddr(r, a, t);
	CHECK(r->next == nullptr, "a single address has a next");
	fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, r);
	alloc::expectNone("after the address was freed");
	FiftyoneDegrees::IpIntelligence::IpAddress o(t.c_str()), raw(a.b, (fiftyoneDegreesEvidenceIpType)a.v);
	for (auto *p : { &o, &raw }) {
		CHECK((int)p->getType() == a.v && memcmp(p->getIpAddress(), a.b, a.n()) == 0, "wrapper holds another address");
		size_t room = s.below(20); uint8_t *copy = (uint8_t *)malloc(room ? room : 1); memset(copy, 0xEE, room);
		p->getCopyOfIpAddress(copy, (uint32_t)room);
		CHECK(memcmp(copy, a.b, std::min(room, a.n())) == 0, "copy of %zu bytes is %s", room, hex(copy, std::min(room, a.n())).c_str());
		for (size_t i = a.n(); i < room; i++) CHECK(copy[i] == 0xEE, "copied past the address");
		free(copy);
	}
	alloc::expectNone("after the wrapper");
	{	// addresses of no version, and text there is no memory for
		FiftyoneDegrees::IpIntelligence::IpAddress none, other(a.b, (fiftyoneDegreesEvidenceIpType)NONE); uint8_t zeros[16] = { 0 }, copy[16];
		for (auto *p : { &none, &other }) { memset(copy, 0xEE, 16); p->getCopyOfIpAddress(copy, 16); CHECK((int)p->getType() == NONE && memcmp(copy, zeros, 16) == 0 && memcmp(p->getIpAddress(), zeros, 16) == 0, "an address of no version is version %d with %s", (int)p->getType(), hex(copy, 16).c_str()); }
		alloc::arm(0, true); bool threw = false; try { FiftyoneDegrees::IpIntelligence::IpAddress q(t.c_str()); } catch (std::bad_alloc &) { threw = true; } alloc::disarm(); CHECK(threw, "an address there was no memory for");
	}
	if (t.find("::") != std::string::npos) label("abbreviated");
	if (a.v == V6 && t.find('.') != std::string::npos) label("embedded IPv4");
	if (tail.size() && tail[0] != 0) label("followed by other text");
	if (a.v == V6) nontrivial();
}
void malformed(Src &s) {
	alloc::begin();
	std::string t;
	switch (s.below(5)) {
	case 0: t = s.chars("0123456789.", (size_t)s.small(0, 40)); break;
	case 1: t = s.chars("0123456789abcdefABCDEF::::", (size_t)s.small(0, 60)); break;
	case 2: t = s.chars(":.,  0fg-+x", (size_t)s.small(0, 60)); break;
	case 3: t = s.bytes((size_t)s.small(0, 40)); break;
	default: { Addr a = genAddr(s, s.chance(1, 2) ? V4 : V6); t = a.v == V4 ? spell4(s, a.b) : spell6(s, a.b);
		int n = (int)s.range(1, 3); while (n--) { size_t i = s.below(t.size() + 1); if (s.chance(1, 2)) t.insert(i, s.chars(":.0f ,z", (size_t)s.small(1, 20))); else if (i < t.size()) t.erase(i, 1); } }
	}
	if (s.chance(1, 20)) { t.clear(); int k = (int)(s.chance(1, 60) ? s.range(65520, 66000) : s.range(200, 400)); bool v6 = s.chance(1, 2); while (k--) t += v6 ? ":1" : ".1"; }
	log("%s", quote(t.substr(0, 20000)).c_str());
	Text x("", t, std::string(1, s.chance(1, 2) ? '\0' : '7'));
	Ip *r = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, x.start, x.end);
	CHECK(r != nullptr && (r->type == V4 || r->type == V6 || r->type == NONE), "no result");
	// An address by the system's own parser must come out right as well.
	uint8_t chk[16]; std::string c(t.c_str());
	if (c.size() == t.size()) {
		Addr a; if (inet_pton(AF_INET, c.c_str(), a.b) == 1) { a.v = V4; expectAddr(r, a, t); label("valid IPv4 by chance"); }
		else if (inet_pton(AF_INET6, c.c_str(), a.b) == 1) { a.v = V6; expectAddr(r, a, t); label("valid IPv6 by chance"); }
	}
	if (t.find('.') == std::string::npos && t.find(':') == std::string::npos) CHECK(r->type == NONE, "%s has no separator but is an address", quote(t).c_str());
	(void)chk;
	// The same text gives the same result whatever follows.
	Text y("", t, "1.2:f");
	Ip *q = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, y.start, y.end);
	CHECK(q->type == r->type, "the type depends on what follows the text");
	size_t written = (size_t)(r->current - r->address), cap = r->type == V4 ? 4 : 16;
	CHECK(written <= cap, "%zu bytes written to an address of %zu", written, cap);
	if (written == cap || (r->type != NONE && t.size() > 8)) nontrivial();
	CHECK((size_t)(q->current - q->address) == written && memcmp(q->address, r->address, written) == 0, "the bytes depend on what follows the text");
	fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, r); fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, q);
	alloc::expectNone("after the address was freed");
	
}
void list(Src &s) {
	alloc::begin();
	std::vector<Addr> as; std::string t;
	size_t n = s.chance(1, 200) ? (size_t)s.range(250, 600) : (size_t)s.small(0, 8); if (n > 8) label("hundreds of addresses");
	if (s.chance(1, 6)) t += s.chars(", ", (size_t)s.range(1, 3));
	std::string seps = ", ";
	for (size_t i = 0; i < n; i++) {
		if (i) { t += seps[s.below(2)]; if (s.chance(1, 3)) t += s.chars(", ", (size_t)s.range(1, 2)); }
		as.push_back(genAddr(s, s.chance(1, 2) ? V4 : V6));
		t += as.back().v == V4 ? spell4(s, as.back().b) : spell6(s, as.back().b);
		if (s.chance(1, 8)) { t += seps[s.below(2)]; t += s.chars("ghijk", (size_t)s.range(1, 5)); }
	}
	if (s.chance(1, 6)) t += s.chars(", ", (size_t)s.range(1, 3));
	log("%s", quote(t.substr(0, 20000)).c_str());
	Text x("", t, std::string(1, '\0'));
	Ip *h = fiftyoneDegreesIpParseAddresses(fiftyoneDegreesMalloc, x.start);
	size_t k = 0;
	for (Ip *p = h; p != nullptr; p = p->next) {
		if (p->type == NONE) continue;
		CHECK(k < as.size(), "an address was invented in %s", quote(t).c_str());
		expectAddr(p, as[k], t); k++;
	}
	CHECK(k == as.size(), "%zu of %zu addresses found in %s", k, as.size(), quote(t).c_str());
	fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, h);
	alloc::expectNone("after the list was freed");
	if (n > 1) nontrivial();
}
void compare(Src &s) {
	int v = s.chance(1, 2) ? V4 : V6; Addr a = genAddr(s, v), b = s.chance(1, 3) ? genAddr(s, v) : a;
	if (s.chance(1, 2)) b.b[s.below(b.n())] = (uint8_t)s.below(256);
	if (s.chance(1, 3)) b.b[s.below(b.n())] ^= (uint8_t)(1 << s.below(8));
	log("%s %s", hex(a.b, a.n()).c_str(), hex(b.b, b.n()).c_str());
	uint8_t *x = (uint8_t *)malloc(a.n()), *y = (uint8_t *)malloc(b.n()); memcpy(x, a.b, a.n()); memcpy(y, b.b, b.n());
	int w = memcmp(x, y, a.n()), g = fiftyoneDegreesCompareIpAddresses(x, y, (fiftyoneDegreesEvidenceIpType)v);
	CHECK((w < 0) == (g < 0) && (w > 0) == (g > 0), "compared %d, bytes order %d", g, w);
	CHECK(fiftyoneDegreesCompareIpAddresses(x, y, (fiftyoneDegreesEvidenceIpType)NONE) == 0, "addresses of no version differ");
	free(x); free(y);
	if (w != 0) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("valid", valid, 120000, 4000000, "random addresses in random spellings (case, leading zeros, any abbreviated run, embedded IPv4), any following character; non-trivial = IPv6");
	suite("malformed", malformed, 150000, 6000000, "random and mutated text, too many segments; non-trivial = a full or long address text");
	suite("list", list, 60000, 2000000, "lists with repeated separators and words in between; non-trivial = 2 or more addresses");
	suite("compare", compare, 60000, 1000000, "address pairs; non-trivial = different addresses");
	Options o; o.assumptions = { "one readable character follows the given range (the caller's terminator)", "items of the invalid type in a list count as rejected" };
	return runMain(argc, argv, o);
}
