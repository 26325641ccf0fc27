// C22: required properties.
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
#include <strings.h>
using namespace pbt;
namespace {
typedef std::string Str;
Str low(Str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
Str recase(Src &s, Str n) { for (auto &c : n) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return n; }
struct Offer { fiftyoneDegreesCollection c; std::vector<Str> names; std::vector<std::vector<uint32_t>> evidence; std::set<void *> out; long calls = 0, failAt = -1; bool failed = false; };
void release(fiftyoneDegreesCollectionItem *i) {
	Offer *o = (Offer *)i->collection;
	CHECK(o->out.erase(i->data.ptr) == 1, "a name was released that is not held");
	free(i->data.ptr); i->data.ptr = nullptr;
}
fiftyoneDegreesString *getName(void *st, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	Offer *o = (Offer *)st;
	if (index >= o->names.size()) return nullptr;
	if (o->calls++ == o->failAt) { o->failed = true; return nullptr; }
	const Str &n = o->names[index]; int16_t sz = (int16_t)(n.size() + 1);
	char *p = (char *)malloc(2 + n.size() + 1); memcpy(p, &sz, 2); memcpy(p + 2, n.c_str(), n.size() + 1);
	o->out.insert(p); item->data.ptr = (byte *)p; item->data.used = (uint32_t)(3 + n.size()); item->data.allocated = 0; item->collection = &o->c; item->handle = nullptr;
	return (fiftyoneDegreesString *)p;
}
uint32_t getEvidence(void *st, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	Offer *o = (Offer *)st;
	CHECK(p->propertyIndex < o->evidence.size(), "evidence properties were asked of property %u of %zu", p->propertyIndex, o->evidence.size());
	auto &v = o->evidence[p->propertyIndex];
	if (e != nullptr) { CHECK(e->capacity >= v.size(), "room for %u of %zu evidence properties", e->capacity, v.size()); for (size_t i = 0; i < v.size(); i++) e->items[i] = v[i]; }
	return (uint32_t)v.size();
}
void offer(Src &s, Offer &o) {
	memset(&o.c, 0, sizeof o.c); o.c.release = release; std::set<Str> have; bool many = s.chance(1, 100); size_t n = many ? (size_t)s.range(240, 400) : (size_t)s.small(0, 30); bool high = s.chance(1, 3), spaced = s.chance(1, 6);
	static const char *words[] = { "Is", "IsMobile", "isMobileX", "SetHeader", "SetHeaderBrowserAccept-CH", "DeviceSetHeader", "SetHeade", "Platform", "PlatformName", "javascript", "JavaScriptHardwareProfile", "a", "A_", "AZ" };
	for (size_t i = 0; i < n; i++) {
		Str nm = s.chance(1, 3) ? Str(words[s.below(14)]) : s.chance(1, 3) && !o.names.empty() ? s.pick(o.names) + s.chars("abZ_", 1) : s.chars(high ? "abXZ_[\xC3\xE9\x80\xFF" : "abXZ_[-.\t;", (size_t)s.range(1, 9));
		if (many && s.chance(4, 5)) nm += std::to_string(i);
		if (s.chance(1, 300)) { nm += s.chars("abXZ", (size_t)s.range(240, 300)); if (s.chance(1, 3)) nm += Str(20000, 'k'); label("long names"); }
		if (spaced && s.chance(1, 4)) nm += Str(" ") + s.chars("ab,|", (size_t)s.range(1, 4));
		if (have.insert(low(nm)).second) o.names.push_back(recase(s, nm));
	}
	for (size_t i = 0; i < o.names.size(); i++) { o.evidence.push_back({}); for (size_t k = s.chance(1, 2) ? 0 : s.chance(1, 400) ? (size_t)s.range(250, 400) : (size_t)s.below(4); k-- > 0;) o.evidence[i].push_back((uint32_t)s.below(o.names.size() * 2)); log("offers %s", quote(o.names[i]).c_str()); }
}
int find(const Offer &o, const Str &name) { for (size_t i = 0; i < o.names.size(); i++) if (low(o.names[i]) == low(name)) return (int)i; return -1; }
void verify(Src &s, fiftyoneDegreesPropertiesAvailable *a, Offer &o, const std::set<int> &want) {
	CHECK(a->count == want.size(), "%u properties were selected, not %zu", a->count, want.size());
	CHECK(a->capacity >= a->count, "more properties than there is room for");
	std::set<int> got; bool header = false;
	for (uint32_t i = 0; i < a->count; i++) {
		auto &p = a->items[i]; int index = (int)p.propertyIndex;
		CHECK(want.count(index), "property %d was not asked for", index); CHECK(got.insert(index).second, "property %d was selected twice", index);
		const Str &n = o.names[(size_t)index]; fiftyoneDegreesString *name = fiftyoneDegreesPropertiesGetNameFromRequiredIndex(a, (int)i);
		CHECK(name != nullptr && o.out.count(name) && name->size == (int16_t)(n.size() + 1) && n == &name->value, "the name at %u is not that of property %d", i, index);
		CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, (int)i) == index, "position %u is not property %d", i, index);
		if (i > 0) CHECK(strcasecmp(o.names[a->items[i - 1].propertyIndex].c_str(), n.c_str()) < 0, "%s comes after %s", quote(n).c_str(), quote(o.names[a->items[i - 1].propertyIndex]).c_str());
		auto &ev = o.evidence[(size_t)index]; CHECK(p.evidenceProperties != nullptr && p.evidenceProperties->count == ev.size(), "property %d has other evidence properties", index);
		for (size_t k = 0; k < ev.size(); k++) CHECK(p.evidenceProperties->items[k] == ev[k], "evidence property %zu of property %d is %u", k, index, p.evidenceProperties->items[k]);
		CHECK(!p.delayExecution, "execution is delayed without having been asked");
		Str key = recase(s, n); int r = fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, key.c_str());
		CHECK(r == (int)i, "%s was found at %d, not %u", quote(key).c_str(), r, i);
		CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, key.c_str()) == index, "%s was not found", quote(key).c_str());
		if (low(n).compare(0, 9, "setheader") == 0) header = true;
	}
	CHECK(fiftyoneDegreesPropertiesIsSetHeaderAvailable(a) == header, "SetHeader properties reported %s", header ? "missing" : "present");
	for (int k = 0; k < 6; k++) {
		Str key = !o.names.empty() && s.chance(2, 3) ? recase(s, s.pick(o.names)) : s.chars("abXZ_\xE9", (size_t)s.below(5));
		if (s.chance(1, 3)) key += s.chars("abZ", 1); else if (s.chance(1, 4) && !key.empty()) key.pop_back();
		int at = find(o, key); bool in = at >= 0 && want.count(at);
		int r = fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(a, key.c_str()), p = fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, key.c_str());
		CHECK(in ? p == at && r >= 0 && a->items[r].propertyIndex == (uint32_t)at : r == -1 && p == -1, "%s was found at %d as property %d", quote(key).c_str(), r, p);
	}
	for (int i : { -1, (int)a->count, INT32_MAX, INT32_MIN }) CHECK(fiftyoneDegreesPropertiesGetPropertyIndexFromRequiredIndex(a, i) == -1, "position %d is a property", i);
	CHECK(o.out.size() == a->count, "%zu names are held for %u properties", o.out.size(), a->count);
}
void run(Src &s) {
	alloc::begin(); Offer o; offer(s, o);
	auto request = [&] { Str n = !o.names.empty() && s.chance(3, 4) ? recase(s, s.pick(o.names)) : s.chance(1, 5) ? Str() : s.chars("abXZ_\xE9", (size_t)s.range(1, 4)); if (s.chance(1, 10)) n += s.chars("aZ", 1); else if (s.chance(1, 10) && !n.empty()) n.pop_back(); return n; };
	std::vector<Str> asked; std::set<int> want; std::vector<const char *> ptrs; std::vector<std::vector<char>> keep; Str text; char *heap = nullptr;
	fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault, *given = &req; bool mayBeNull = false;
	Offer other; fiftyoneDegreesPropertiesAvailable *existing = nullptr;
	int kind = (int)s.below(6);
	bool arr = kind == 0 || kind == 1, str = kind == 1 || kind == 2, ex = kind == 3; // the first one given counts
	auto addArray = [&] { for (auto &n : asked) { keep.emplace_back(n.begin(), n.end()); keep.back().push_back('\0'); } for (auto &k : keep) ptrs.push_back(k.data()); ptrs.push_back(nullptr); req.array = ptrs.data(); req.count = (int)asked.size(); };
	if (ex) {
		offer(s, other); std::vector<const char *> sel; for (auto &n : other.names) if (s.chance(2, 3)) sel.push_back(n.c_str());
		fiftyoneDegreesPropertiesRequired r = fiftyoneDegreesPropertiesDefault; r.array = sel.data(); r.count = (int)sel.size();
		existing = fiftyoneDegreesPropertiesCreate(&r, &other, getName, getEvidence); CHECK(existing != nullptr, "not created");
		log("an existing selection of %u", existing->count);
		for (uint32_t i = 0; i < existing->count; i++) asked.push_back(other.names[existing->items[i].propertyIndex]);
		req.existing = existing; label("existing");
		if (s.chance(1, 2)) { req.string = "a,A_"; }
	} else if (arr || str) {
		size_t n = s.chance(1, 60) ? (size_t)s.range(60, 700) : (size_t)s.small(0, 14); for (size_t i = 0; i < n; i++) { asked.push_back(request()); log("asks for %s", quote(asked.back()).c_str()); }
		if (arr) { addArray(); if (asked.empty()) { arr = false; } else label("array"); }
		if (str && !arr) {
			asked.clear(); size_t parts = s.chance(1, 60) ? (size_t)s.range(60, 700) : (size_t)s.small(0, 14);
			for (size_t i = 0; i < parts; i++) { if (i || s.chance(1, 8)) text += s.chars("|, ", s.chance(1, 4) ? 2 : 1); text += request(); }
			if (s.chance(1, 6)) text += s.chars("|, ", 1);
			log("asks for %s", quote(text).c_str()); label("string");
			Str part; for (char c : text + "|") { if (c == '|' || c == ',' || c == ' ') { asked.push_back(part); part.clear(); } else part += c; }
		} else if (str) text = "IsMobile"; // not used
		if (str) { heap = (char *)malloc(text.size() + 1); memcpy(heap, text.c_str(), text.size() + 1); req.string = heap; }
	} else if (s.chance(1, 2)) given = nullptr;
	bool all = !ex && !arr && (!str || text.empty());
	if (all) { label("all"); for (size_t i = 0; i < o.names.size(); i++) want.insert((int)i); }
	else { for (auto &n : asked) { int i = find(o, n); if (i >= 0) want.insert(i); } mayBeNull = want.empty(); }
	// a fault on the way must leave nothing behind
	size_t held = alloc::live();
	if (s.chance(1, 6)) {
		bool oom = s.chance(1, 2); if (oom) alloc::arm((int64_t)s.below(want.size() + 3), s.chance(1, 2)); else o.failAt = (long)s.below(o.names.size() * 3 + want.size() * 4 + 1);
		auto *a = fiftyoneDegreesPropertiesCreate(given, &o, getName, getEvidence); bool hit = oom ? alloc::S().failed > 0 : o.failed; alloc::disarm(); o.failAt = -1;
		if (hit) { label(oom ? "no memory" : "name not available"); if (a != nullptr && oom) { bool missing = false; for (uint32_t i = 0; i < a->count; i++) missing |= a->items[i].evidenceProperties == nullptr; CHECK(missing, "no sign that there was no memory"); } }
		fiftyoneDegreesPropertiesFree(a); CHECK(o.out.empty(), "%zu names are still held", o.out.size()); alloc::expectCount(held, "after a failed selection was freed"); o.failed = false;
	}
	auto *a = fiftyoneDegreesPropertiesCreate(given, &o, getName, getEvidence);
	CHECK(a != nullptr || mayBeNull, "no selection though there is one");
	if (a != nullptr) verify(s, a, o, want);
	if (want.size() > 3 && (all || asked.size() > want.size())) nontrivial();
	if (a != nullptr && s.chance(1, 4)) { // and on to a reloaded data set
		Offer next; offer(s, next); fiftyoneDegreesPropertiesRequired r = fiftyoneDegreesPropertiesDefault; r.existing = a; std::set<int> w2; for (int i : want) { int k = find(next, o.names[(size_t)i]); if (k >= 0) w2.insert(k); }
		auto *b = fiftyoneDegreesPropertiesCreate(&r, &next, getName, getEvidence); CHECK(b != nullptr || w2.empty(), "no selection from an existing one");
		if (b != nullptr) verify(s, b, next, w2); fiftyoneDegreesPropertiesFree(b); CHECK(next.out.empty(), "names are still held");
	}
	fiftyoneDegreesPropertiesFree(a); fiftyoneDegreesPropertiesFree(existing); free(heap);
	CHECK(o.out.empty() && other.out.empty(), "%zu names are still held", o.out.size() + other.out.size());
	alloc::expectNone("after the selection was freed");
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "The names a data set offers differ ignoring case and are not empty." };
	suite("select", run, 60000, 8000000, "more than 3 properties were selected, of all or with repeated or unknown names asked for");
	return runMain(argc, argv, o);
}
