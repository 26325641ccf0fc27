// C20: evidence iteration, and evidence made for combined headers.
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
using namespace pbt;
namespace {
typedef std::string Str;
typedef fiftyoneDegreesEvidencePrefix Prefix;
typedef fiftyoneDegreesEvidenceKeyValuePairArray Ev;
Str low(Str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
Str recase(Src &s, Str n) { for (auto &c : n) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return n; }
const Prefix prefixes[] = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_SERVER, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_IP_ADDRESSES, FIFTYONE_DEGREES_EVIDENCE_IGNORE };
struct Pair { Prefix p; Str field, value, parsed = Str(); bool isParsed = false; };
struct Seen { std::vector<fiftyoneDegreesEvidenceKeyValuePair> got; size_t stopAfter; };
bool onPair(void *st, fiftyoneDegreesEvidenceKeyValuePair *p) { Seen *x = (Seen *)st; x->got.push_back(*p); return x->got.size() < x->stopAfter; }
struct Names { fiftyoneDegreesCollection c; std::vector<Str> names; };
void relName(fiftyoneDegreesCollectionItem *i) { free(i->data.ptr); }
long getHeader(void *st, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	Names *n = (Names *)st; if (index >= n->names.size()) return -1;
	const Str &t = n->names[index]; int16_t sz = (int16_t)(t.size() + 1); byte *p = (byte *)malloc(3 + t.size()); memcpy(p, &sz, 2); memcpy(p + 2, t.c_str(), t.size() + 1);
	item->data.ptr = p; item->data.used = (uint32_t)(3 + t.size()); item->data.allocated = 0; item->collection = &n->c; item->handle = nullptr; return (long)index + 1;
}
std::vector<Str> split(const Str &n) { std::vector<Str> r; Str c; for (char ch : n + "\x1F") { if (ch == '\x1F') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; } return r; }
// a block of exactly the given bytes, so a read past them is noticed
struct Keep { std::vector<char *> b; const char *operator()(const Str &t) { char *p = (char *)malloc(t.size() + 1); memcpy(p, t.c_str(), t.size() + 1); b.push_back(p); return p; } ~Keep() { for (auto p : b) free(p); } };
// what iterating has to deliver
void iterate(Src &s, Ev *e, const std::vector<Pair> &model, const char *when) {
	int mask = s.chance(1, 4) ? 0xFF : (int)s.below(256); std::vector<const Pair *> want;
	for (auto &p : model) if (((int)p.p & mask) != 0) want.push_back(&p);
	Seen seen; seen.stopAfter = s.chance(1, 3) ? (size_t)s.range(1, (int64_t)model.size() + 1) : SIZE_MAX;
	if (want.size() > seen.stopAfter) { want.resize(seen.stopAfter); label("stopped early"); }
	uint32_t n = fiftyoneDegreesEvidenceIterate(e, mask, &seen, onPair);
	CHECK(n == seen.got.size(), "%u pairs reported, %zu delivered %s", n, seen.got.size(), when);
	CHECK(seen.got.size() == want.size(), "%zu pairs delivered for mask %d, expected %zu %s", seen.got.size(), mask, want.size(), when);
	for (size_t i = 0; i < want.size(); i++) {
		auto &g = seen.got[i];
		CHECK(g.prefix == want[i]->p && low(want[i]->field) == low(g.field) && (want[i]->isParsed ? want[i]->parsed : want[i]->value) == (const char *)g.parsedValue && g.originalValue != nullptr && want[i]->value == (const char *)g.originalValue, "pair %zu is %s = %s (prefix %d), expected %s = %s (%d) %s", i, quote(g.field).c_str(), g.parsedValue ? quote((const char *)g.parsedValue).c_str() : "nothing", (int)g.prefix, quote(want[i]->field).c_str(), quote(want[i]->value).c_str(), (int)want[i]->p, when);
	}
}
Ev *fill(Src &, uint32_t capacity, const std::vector<Pair> &pairs, Keep &keep) {
	Ev *e = fiftyoneDegreesEvidenceCreate(capacity); CHECK(e != nullptr && e->count == 0 && e->capacity == capacity && e->pseudoEvidence == nullptr, "evidence for %u pairs not created", capacity);
	for (size_t i = 0; i < pairs.size(); i++) {
		const char *f = keep(pairs[i].field), *v = keep(pairs[i].value);
		auto *p = fiftyoneDegreesEvidenceAddString(e, pairs[i].p, f, v);
		CHECK((p != nullptr) == (i < capacity), "pair %zu of %u was %s", i, capacity, p ? "added" : "refused");
		if (p) CHECK(p->prefix == pairs[i].p && p->field == f && p->originalValue == v, "another pair was added");
		CHECK(e->count == std::min<size_t>(i + 1, capacity), "%u pairs after adding %zu", e->count, i + 1);
	}
	return e;
}
void plain(Src &s) {
	alloc::begin(); Keep keep; size_t n = s.chance(1, 60) ? (size_t)s.range(250, 400) : (size_t)s.small(0, 25); bool lengthy = s.chance(1, 60); uint32_t cap = (uint32_t)std::max<int64_t>(0, (int64_t)n + s.range(-1, 2)); std::vector<Pair> pairs; std::set<int> kinds;
	for (size_t i = 0; i < n; i++) { Pair p; p.p = s.pick(std::vector<Prefix>(prefixes, prefixes + 6)); p.field = s.chars("abcXYZ-", (size_t)s.below(9)); p.value = s.chars("abc 12;=\"\x1F", (size_t)s.small(0, 40)); if (lengthy && s.chance(1, 4)) { p.field += s.chars("abcXYZ-", (size_t)s.range(240, 300)); p.value += Str((size_t)s.range(200, 70000), 'v'); } pairs.push_back(p); kinds.insert(p.p); log("%d %s = %s", (int)p.p, quote(p.field).c_str(), quote(p.value).c_str()); }
	Ev *e = fill(s, cap, pairs, keep); if (pairs.size() > cap) { pairs.resize(cap); label("too many"); }
	// a value which was parsed already is delivered as it was parsed, and combined evidence follows the rest whatever was found before it
	if (s.chance(1, 3)) for (size_t i = 0; i < pairs.size(); i++) if (s.chance(1, 3)) { pairs[i].parsed = s.chars("pq", (size_t)s.range(1, 5)); pairs[i].isParsed = true; e->items[i].parsedValue = keep(pairs[i].parsed); label("parsed before"); }
	Ev *second = nullptr;
	if (s.chance(1, 3)) {
		size_t m = (size_t)s.small(0, 6); std::vector<Pair> more; for (size_t i = 0; i < m; i++) { Pair p; p.p = s.pick(std::vector<Prefix>(prefixes, prefixes + 6)); p.field = s.chars("abc", 2); p.value = s.chars("abc", 3); more.push_back(p); log("combined %d %s = %s", (int)p.p, quote(p.field).c_str(), quote(p.value).c_str()); }
		second = fill(s, (uint32_t)m, more, keep); e->pseudoEvidence = second; pairs.insert(pairs.end(), more.begin(), more.end()); label("two sets");
	}
	for (int k = 0; k < 5; k++) iterate(s, e, pairs, "of plain evidence");
	fiftyoneDegreesEvidenceFree(second);
	if (kinds.size() > 2) nontrivial();
	fiftyoneDegreesEvidenceFree(e); alloc::expectNone("after the evidence was freed");
}
void combined(Src &s) {
	alloc::begin(); Keep keep; Names names; memset(&names.c, 0, sizeof names.c); names.c.release = relName;
	static const char *words[] = { "user-agent", "Sec-CH-UA", "sec-ch-ua-mobile", "a", "B", "ab", "x" };
	auto word = [&] { return s.chance(1, 6) ? s.chars("abX-", (size_t)s.range(1, 4)) : Str(words[s.below(7)]); };
	bool lengthy = s.chance(1, 100), many = s.chance(1, 100);
	for (size_t k = many ? (size_t)s.range(100, 300) : (size_t)s.small(0, 8); k-- > 0;) { Str n; int parts = (int)s.weighted({ 2, 5, 4, 2 }) + 1; for (int p = 0; p < parts; p++) { if (p) n += s.chance(1, 10) ? "\x1F\x1F" : "\x1F"; n += recase(s, word()); if (many && s.chance(1, 2)) n += std::to_string(k); } if (s.chance(1, 12)) n += "\x1F"; if (s.chance(1, 15)) n = "\x1F" + n; names.names.push_back(n); log("header %s", quote(n).c_str()); }
	bool prefixed = s.chance(1, 4); fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(prefixed, &names, getHeader); CHECK(h != nullptr, "headers not created");
	size_t size = s.chance(1, 3) ? (size_t)s.range(2, 30) : lengthy ? (size_t)s.range(30000, 150000) : 300; Prefix order[4]; size_t orderSize = (size_t)s.range(0, 3); for (size_t i = 0; i < orderSize; i++) order[i] = prefixes[s.below(4)];
	uint32_t slots = h->pseudoHeadersCount + (s.chance(1, 3) ? (uint32_t)s.below(3) : 0); log("buffers of %zu, %u slots, order %d %d %d", size, slots, orderSize > 0 ? order[0] : 0, orderSize > 1 ? order[1] : 0, orderSize > 2 ? order[2] : 0);
	Ev *pseudo = fiftyoneDegreesEvidenceCreate(slots); std::vector<char *> buffers; for (uint32_t i = 0; i < slots; i++) { char *b = (char *)malloc(size); memset(b, 'Z', size); pseudo->items[i].originalValue = b; buffers.push_back(b); }
	int rounds = (int)s.range(1, 3); size_t made = 0, cut = 0, absent = 0;
	for (int r = 0; r < rounds; r++) {
		std::vector<Pair> pairs; size_t n = many ? (size_t)s.range(200, 400) : (size_t)s.small(0, 16); std::vector<Str> parts; for (auto &x : names.names) for (auto &g : split(x)) parts.push_back(g);
		for (size_t i = 0; i < n; i++) {
			Pair p; p.p = orderSize > 0 && s.chance(4, 5) ? order[s.below(orderSize)] : prefixes[s.below(6)];
			p.field = !parts.empty() && s.chance(4, 5) ? recase(s, s.pick(parts)) : !names.names.empty() && s.chance(1, 3) ? recase(s, s.pick(names.names)) : word(); if (s.chance(1, 15)) p.field += "x";
			p.value = s.chance(1, 10) ? Str() : s.chars("abc 12;\"", (size_t)s.small(1, s.chance(1, 4) ? 60 : 12)); if (lengthy && s.chance(1, 2)) p.value += Str((size_t)s.range(100, 70000), 'v'); pairs.push_back(p); log("%d %s = %s", (int)p.p, quote(p.field).c_str(), quote(p.value).c_str());
		}
		if (s.chance(1, 3) && orderSize > 0) for (auto &g : parts) if (s.chance(5, 6)) { Pair p; p.p = order[s.below(orderSize)]; p.field = recase(s, g); p.value = s.chars("abc", (size_t)s.small(1, 9)); pairs.push_back(p); log("%d %s = %s", (int)p.p, quote(p.field).c_str(), quote(p.value).c_str()); }
		Ev *e = fill(s, (uint32_t)pairs.size(), pairs, keep);
		if (h->pseudoHeadersCount == 0) { FIFTYONE_DEGREES_EXCEPTION_CREATE fiftyoneDegreesPseudoHeadersAddEvidence(e, h, size, order, orderSize, exception); fiftyoneDegreesPseudoHeadersRemoveEvidence(e, size); iterate(s, e, pairs, "without combined headers"); }
		e->pseudoEvidence = pseudo;
		std::vector<Pair> all = pairs;
		for (uint32_t i = 0; i < h->count; i++) {
			Str name = h->items[i].name; auto segs = split(name); if (segs.size() < 2) continue; bool given = false;
			for (auto &p : pairs) if (low(p.field) == low(name)) for (size_t j = 0; j < orderSize; j++) given |= order[j] == p.p;
			if (given) { label("combined header was given"); continue; }
			bool found = false;
			for (size_t j = 0; j < orderSize && !found; j++) {
				Str v; bool ok = true;
				for (size_t g = 0; g < segs.size() && ok; g++) { ok = false; for (auto &p : pairs) if (p.p == order[j] && low(p.field) == low(segs[g])) { ok = true; if (g) v += '\x1F'; v += p.value; break; } }
				if (!ok) continue;
				found = true; if (v.size() > size - 1) { v.resize(size - 1); cut++; label("cut at the buffer size"); } all.push_back({ order[j], name, v }); made++;
			}
			if (!found) absent++;
		}
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		fiftyoneDegreesPseudoHeadersAddEvidence(e, h, size, order, orderSize, exception);
		CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "status %d", (int)exception->status);
		CHECK(pseudo->count == all.size() - pairs.size(), "evidence for %u combined headers, expected %zu", pseudo->count, all.size() - pairs.size());
		iterate(s, e, all, "with combined headers"); iterate(s, e, all, "with combined headers");
		fiftyoneDegreesPseudoHeadersRemoveEvidence(e, size); CHECK(pseudo->count == 0, "%u combined headers after removing them", pseudo->count);
		for (uint32_t i = 0; i < slots; i++) { CHECK(pseudo->items[i].originalValue == buffers[i], "a buffer was lost"); CHECK(pseudo->items[i].field == nullptr, "a removed pair still has a name"); }
		iterate(s, e, pairs, "after removing the combined headers"); e->pseudoEvidence = nullptr; fiftyoneDegreesEvidenceFree(e);
	}
	{ FIFTYONE_DEGREES_EXCEPTION_CREATE fiftyoneDegreesPseudoHeadersAddEvidence(nullptr, h, size, order, orderSize, exception); CHECK(exception->status == FIFTYONE_DEGREES_STATUS_NULL_POINTER, "no evidence is no problem"); fiftyoneDegreesPseudoHeadersRemoveEvidence(nullptr, size); }
	if (made > 0 && absent > 0) nontrivial();
	for (auto b : buffers) free(b); fiftyoneDegreesEvidenceFree(pseudo); fiftyoneDegreesHeadersFree(h); alloc::expectNone("after everything was freed");
}
void prefixNames(Src &s) {
	struct P { const char *t; Prefix p; }; const P known[] = { { "server.", FIFTYONE_DEGREES_EVIDENCE_SERVER }, { "header.", FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING }, { "query.", FIFTYONE_DEGREES_EVIDENCE_QUERY }, { "cookie.", FIFTYONE_DEGREES_EVIDENCE_COOKIE } };
	Str key = s.chance(4, 5) ? known[s.below(4)].t : s.chars("headrquy.", (size_t)s.below(9));
	switch (s.below(6)) { case 0: key = recase(s, key); break; case 1: if (!key.empty()) key.erase((size_t)s.below(key.size()), 1); break; case 2: key = s.chars("hx.", 1) + key; break; default: break; }
	key += s.chars("ab.header", (size_t)s.below(6));
	if (s.chance(1, 12)) { size_t to = (s.chance(1, 6) ? 65536 : 256) + (size_t)s.below(12); if (key.size() < to) key.resize(to, s.pick(std::vector<char>{ 'a', '.', '\xE9' })); label("long key"); }
	log("%s", quote(key).c_str());
	const P *want = nullptr; for (auto &k : known) if (key.size() > strlen(k.t) && key.compare(0, strlen(k.t), k.t) == 0) want = &k;
	Keep keep; auto *m = fiftyoneDegreesEvidenceMapPrefix(keep(key));
	CHECK((m != nullptr) == (want != nullptr), "%s %s a prefix", quote(key).c_str(), m ? "has" : "lacks");
	if (want) { CHECK(m->prefixEnum == want->p && m->prefixLength == strlen(want->t) && !strcmp(m->prefix, want->t), "%s has prefix %s", quote(key).c_str(), m->prefix); nontrivial(); }
	for (auto &k : known) { const char *t = fiftyoneDegreesEvidencePrefixString(k.p); CHECK(t != nullptr && !strcmp(t, k.t), "the name of %d", (int)k.p); }
	CHECK(fiftyoneDegreesEvidencePrefixString(FIFTYONE_DEGREES_EVIDENCE_IGNORE) == nullptr && fiftyoneDegreesEvidencePrefixString((Prefix)0) == nullptr, "a prefix was invented");
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Buffers for combined evidence hold at least two bytes.", "There are as many as the headers report combined headers." };
	suite("plain", plain, 20000, 3000000, "pairs with more than two different prefixes");
	suite("combined", combined, 40000, 6000000, "evidence was made for some combined headers and not for others");
	suite("names", prefixNames, 20000, 1000000, "the key has a known prefix");
	return runMain(argc, argv, o);
}
