// C21: overrides of property values and profiles found in evidence.
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
using namespace pbt;
typedef fiftyoneDegreesOverridePropertyArray Props;
typedef fiftyoneDegreesOverrideValueArray Vals;
typedef fiftyoneDegreesEvidenceKeyValuePairArray Ev;
extern "C" {
Props *propsCreate(fiftyoneDegreesPropertiesAvailable *, bool, void *, fiftyoneDegreesOverridesFilterMethod) asm("fiftyoneDegreesOverridePropertiesCreate");
void propsFree(Props *) asm("fiftyoneDegreesOverridePropertiesFree");
uint32_t extract(Props *, Vals *, Ev *) asm("fiftyoneDegreesOverridesExtractFromEvidence");
bool hasValue(Vals *, uint32_t) asm("fiftyoneDegreesOverrideHasValueForRequiredPropertyIndex");
uint32_t valuesAdd(Vals *, uint32_t, fiftyoneDegreesList *) asm("fiftyoneDegreesOverrideValuesAdd");
fiftyoneDegreesString *getFirst(Vals *, uint32_t, fiftyoneDegreesCollectionItem *) asm("fiftyoneDegreesOverrideValuesGetFirst");
int overriding(fiftyoneDegreesPropertiesAvailable *, uint32_t) asm("fiftyoneDegreesOverridesGetOverridingRequiredPropertyIndex");
}
namespace {
typedef std::string Str;
typedef fiftyoneDegreesEvidencePrefix Prefix;
const Prefix prefixes[] = { FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_SERVER, FIFTYONE_DEGREES_EVIDENCE_IGNORE };
Str low(Str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
Str recase(Src &s, Str n) { if (s.chance(1, 3)) return n; for (auto &c : n) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return n; }
struct Keep { std::vector<char *> b; char *operator()(const Str &t) { char *p = (char *)malloc(t.size() + 1); memcpy(p, t.c_str(), t.size() + 1); b.push_back(p); return p; } ~Keep() { for (auto p : b) free(p); } };
struct Pair { Prefix p; Str field, value; };
struct Available {
	fiftyoneDegreesPropertiesAvailable *a; std::vector<Str> names; std::vector<byte *> blocks;
	explicit Available(const std::vector<Str> &n) : names(n) {
		a = (fiftyoneDegreesPropertiesAvailable *)calloc(1, sizeof *a + n.size() * sizeof(fiftyoneDegreesPropertyAvailable));
		a->items = (fiftyoneDegreesPropertyAvailable *)(a + 1); a->count = a->capacity = (uint32_t)n.size();
		for (size_t i = 0; i < n.size(); i++) { byte *p = (byte *)malloc(3 + n[i].size()); int16_t sz = (int16_t)(n[i].size() + 1); memcpy(p, &sz, 2); memcpy(p + 2, n[i].c_str(), n[i].size() + 1); a->items[i].name.data.ptr = p; a->items[i].propertyIndex = (uint32_t)(n.size() - i) * 3; blocks.push_back(p); }
	}
	~Available() { for (auto b : blocks) free(b); free(a); }
};
std::vector<Str> makeNames(Src &s, size_t n) {
	if (s.chance(1, 100)) { // hundreds of names
		std::vector<Str> r; label("hundreds of properties"); n = (size_t)s.range(250, 400);
		for (size_t i = 0; i < n; i++) r.push_back((s.chance(1, 30) ? s.chars("ab", (size_t)s.range(250, 400)) : s.chance(1, 2) ? Str("Screen") : Str("a")) + std::to_string(i) + (s.chance(1, 4) ? "JS" : ""));
		return r;
	}
	static const char *words[] = { "Screen", "ScreenWidth", "ScreenWidthJavaScript", "a", "B", "ab", "JavaScript", "IsMobile", "51", "D_", "Profile" };
	std::vector<Str> r; std::set<Str> seen;
	for (size_t i = 0; i < n * 3 && r.size() < n; i++) {
		Str w = s.chance(1, 5) && !r.empty() ? s.pick(r) + s.chars("aJ_", (size_t)s.range(1, 3)) : s.chance(1, 3) ? s.chars("abAB_5", (size_t)s.range(1, 4)) : Str(words[s.below(11)]);
		if (low(w).compare(0, 4, "51d_") != 0 && seen.insert(low(w)).second) r.push_back(w);
	}
	return r;
}
Str textValue(Src &s) { return s.chance(1, 200) ? s.chars("ab", (size_t)s.range(30000, 32766)) : s.chars("abc 12;=\"", (size_t)s.small(0, s.chance(1, 6) ? 300 : 20)); }
bool filter(void *st, uint32_t i) { return (*(std::vector<bool> *)st)[i]; }
typedef std::map<uint32_t, Str> Model;
void relNone(fiftyoneDegreesCollectionItem *) {}
void verify(Vals *v, const Model &m, uint32_t indexes, const char *when) {
	CHECK(v->count == m.size(), "%u overridden properties, expected %zu %s", v->count, m.size(), when);
	for (uint32_t i = 0; i < indexes; i++) {
		auto it = m.find(i); bool want = it != m.end();
		CHECK(hasValue(v, i) == want, "property %u %s %s", i, want ? "has no override" : "has an override", when);
		fiftyoneDegreesCollectionItem item; memset(&item, 0, sizeof item); auto *t = getFirst(v, i, &item);
		CHECK((t != nullptr) == want, "property %u %s value %s", i, t ? "gives a" : "gives no", when);
		fiftyoneDegreesList list; CHECK(fiftyoneDegreesListInit(&list, 2) != nullptr, "no list"); uint32_t n = valuesAdd(v, i, &list);
		CHECK(n == (want ? 1u : 0u) && list.count == n, "%u values listed for property %u, %u reported, expected %d %s", list.count, i, n, want, when);
		if (want) {
			CHECK((size_t)t->size == it->second.size() + 1 && it->second == &t->value, "property %u is overridden with %s, expected %s %s", i, quote(&t->value).c_str(), quote(it->second).c_str(), when);
			auto *l = fiftyoneDegreesListGetAsString(&list, 0); CHECK(l != nullptr && it->second == &l->value, "property %u is listed with another value %s", i, when);
			CHECK(item.collection != nullptr && item.collection->release != nullptr && item.data.ptr == (byte *)t, "the item does not hold the value"); item.collection->release(&item);
			// a full list takes no more
			if (n == 1 && v->count > 0) { uint32_t again = valuesAdd(v, i, &list); CHECK(again == 1 && list.count == 2, "second listing"); CHECK(valuesAdd(v, i, &list) == 0 && list.count == 2, "a full list was added to"); }
		}
		fiftyoneDegreesListFree(&list);
	}
	CHECK(v->count == m.size(), "reading changed the overrides");
}
void values(Src &s) {
	alloc::begin(); Keep keep; auto names = makeNames(s, (size_t)s.small(0, 8)); { Available av(names); uint32_t n = (uint32_t)names.size();
	for (size_t i = 0; i < n; i++) log("property %zu %s", i, quote(names[i]).c_str());
	std::vector<bool> may; for (uint32_t i = 0; i < n; i++) may.push_back(!s.chance(1, 5));
	bool prefix = s.chance(1, 2); size_t count = (size_t)std::count(may.begin(), may.end(), true);
	Props *props = propsCreate(av.a, prefix, &may, filter); CHECK((props != nullptr) == (count > 0), "%zu properties may be overridden but the array is %s", count, props ? "there" : "missing");
	if (props) { CHECK(props->count == count && props->prefix == prefix, "%u properties, expected %zu", props->count, count); size_t k = 0; for (uint32_t i = 0; i < n; i++) if (may[i]) { CHECK(props->items[k].requiredPropertyIndex == i && props->items[k].available == &av.a->items[i], "property %zu of the overridable ones is %u", k, props->items[k].requiredPropertyIndex); k++; } }
	uint32_t cap = s.chance(1, 4) ? (uint32_t)s.below(n + 2) : n + (uint32_t)s.below(3); Vals *v = fiftyoneDegreesOverrideValuesCreate(cap); CHECK(v != nullptr && v->count == 0 && v->capacity == cap, "values not created"); log("capacity %u prefix %d", cap, prefix);
	Model m; verify(v, m, n + 2, "at first"); bool hit = false, miss = false; int ops = (int)s.range(1, 6);
	for (int o = 0; o < ops; o++) switch (s.weighted({ 6, 4, 1 })) {
	case 0: {
		std::vector<Pair> pairs; size_t k = s.chance(1, n > 200 ? 2 : 300) ? (size_t)s.range(250, 600) : (size_t)s.small(0, 14); if (k > 200) label("hundreds of pairs");
		for (size_t i = 0; i < k; i++) {
			Pair p; p.p = s.chance(4, 5) ? prefixes[s.below(2)] : prefixes[s.below(5)]; Str name = n && s.chance(5, 6) ? s.pick(names) : s.chars("abAB", (size_t)s.range(1, 3));
			if (s.chance(1, 6)) switch (s.below(4)) { case 0: name += s.chars("aJ_", 1); break; case 1: name.pop_back(); break; case 2: name = s.chars("a5", 1) + name; break; default: name[s.below(name.size())] ^= 1; break; }
			name = recase(s, name); if (s.chance(prefix ? 1 : 1, prefix ? 2 : 6)) name = (s.chance(2, 3) ? Str("51D_") : s.chance(1, 2) ? Str("51d_") : s.chars("51D_", (size_t)s.range(3, 5))) + name;
			p.field = name.c_str(); p.value = textValue(s); pairs.push_back(p); log("evidence %d %s = %s", (int)p.p, quote(p.field).c_str(), quote(p.value.substr(0, 60)).c_str());
		}
		Ev *e = fiftyoneDegreesEvidenceCreate((uint32_t)pairs.size()); for (auto &p : pairs) fiftyoneDegreesEvidenceAddString(e, p.p, keep(p.field), keep(p.value));
		uint32_t applied = 0; std::set<uint32_t> distinct;
		for (auto &p : pairs) {
			if (p.p != FIFTYONE_DEGREES_EVIDENCE_QUERY && p.p != FIFTYONE_DEGREES_EVIDENCE_COOKIE) continue;
			Str f = low(p.field); if (prefix && f.size() > 4 && f.compare(0, 4, "51d_") == 0) { f.erase(0, 4); if (f.size() == 1) label("one letter"); }
			bool found = false;
			for (uint32_t i = 0; i < n; i++) if (may[i] && low(names[i]) == f) { found = true; if (m.count(i) || m.size() < cap) { if (m.count(i)) label("value replaced"); m[i] = p.value; applied++; distinct.insert(i); hit = true; } else label("no room"); }
			if (!found) miss = true;
		}
		uint32_t got = extract(props, v, e); CHECK(got >= distinct.size() && got <= applied, "%u values reported as extracted, %u were", got, applied);
		verify(v, m, n + 2, "after evidence"); fiftyoneDegreesEvidenceFree(e); break;
	}
	case 1: {
		int i = s.chance(1, 8) ? -(int)s.range(1, 3) : (int)s.below(n + 2); Str t = textValue(s); bool oom = s.chance(1, 8); log("add %d = %s%s", i, quote(t.substr(0, 60)).c_str(), oom ? " without memory" : "");
		char *text = keep(t); bool room = i >= 0 && (m.count((uint32_t)i) || m.size() < cap);
		if (oom) alloc::arm(0, true);
		bool got = fiftyoneDegreesOverridesAdd(v, i, text);
		bool failed = oom && alloc::S().failed > 0; if (oom) alloc::disarm();
		if (failed) { CHECK(!got, "added without memory"); if (i >= 0) m.erase((uint32_t)i); label("no memory"); }
		else { CHECK(got == room, "override of %d was %s with %zu of %u in use", i, got ? "added" : "refused", m.size(), cap); if (room) m[(uint32_t)i] = t; }
		verify(v, m, n + 2, "after adding"); break;
	}
	default: log("reset"); fiftyoneDegreesOverrideValuesReset(v); m.clear(); verify(v, m, n + 2, "after a reset"); break;
	}
	if (hit && miss) nontrivial();
	propsFree(props); fiftyoneDegreesOverrideValuesFree(v); }
	CHECK(extract(nullptr, nullptr, nullptr) == 0 && !hasValue(nullptr, 0) && getFirst(nullptr, 0, nullptr) == nullptr && valuesAdd(nullptr, 0, nullptr) == 0, "something came from no overrides"); fiftyoneDegreesOverrideValuesFree(nullptr); fiftyoneDegreesOverrideValuesReset(nullptr);
	alloc::expectNone("after the overrides were freed");
}
void onId(void *st, uint32_t id) { ((std::vector<uint32_t> *)st)->push_back(id); }
void profiles(Src &s) {
	alloc::begin(); Keep keep; std::vector<uint32_t> want, got; size_t n = s.chance(1, 150) ? (size_t)s.range(250, 600) : (size_t)s.small(0, 8); if (n > 8) label("hundreds of pairs"); Ev *e = fiftyoneDegreesEvidenceCreate((uint32_t)n); bool odd = false;
	for (size_t i = 0; i < n; i++) {
		Prefix p = s.chance(4, 5) ? prefixes[s.below(2)] : prefixes[s.below(5)]; Str f = "ProfileIds"; if (s.chance(1, 6)) switch (s.below(4)) { case 0: f += "x"; break; case 1: f.pop_back(); break; case 2: f = "x" + f; break; default: f[s.below(f.size())] ^= 1; }
		f = recase(s, f); if (s.chance(1, 3)) f = (s.chance(2, 3) ? Str("51D_") : s.chance(1, 2) ? Str("51d_") : s.chars("51D_", (size_t)s.range(3, 5))) + f;
		Str v; size_t ids = n <= 8 && s.chance(1, 600) ? (size_t)(s.chance(1, 4) ? s.range(8000, 20000) : s.range(250, 600)) : (size_t)s.small(0, 7); if (ids > 7) label("hundreds of ids");
		for (size_t k = ids; k-- > 0;) {
			switch (s.weighted({ 6, 2, 1, 1, 1 })) { case 0: v += std::to_string(s.below(s.chance(1, 3) ? 4294967296ull : 100000)); break; case 1: v += std::to_string(4294967295ll + s.range(-2, 3)); break; case 2: v += s.chars("0123456789", (size_t)s.range(9, 30)); break; case 3: v += s.bytes((size_t)s.below(4)); break; default: v += "0"; }
			v += s.chance(4, 5) ? s.chars("-|, ", 1) : s.bytes((size_t)s.below(3));
		}
		v = v.c_str(); log("%d %s = %s", (int)p, quote(f).c_str(), quote(v).c_str()); fiftyoneDegreesEvidenceAddString(e, p, keep(f), keep(v));
		if (p != FIFTYONE_DEGREES_EVIDENCE_QUERY && p != FIFTYONE_DEGREES_EVIDENCE_COOKIE) continue;
		if (low(f) != "profileids" && low(f) != "51d_profileids") { odd = true; continue; }
		for (size_t a = 0; a < v.size();) {
			if (v[a] < '0' || v[a] > '9') { a++; continue; }
			size_t b = a; unsigned __int128 x = 0; while (b < v.size() && v[b] >= '0' && v[b] <= '9') { if (x < ((unsigned __int128)1 << 100)) x = x * 10 + (unsigned)(v[b] - '0'); b++; }
			if (x <= UINT32_MAX) want.push_back((uint32_t)x); else label("too large");
			a = b;
		}
	}
	fiftyoneDegreesOverrideProfileIds(e, &got, onId); CHECK(got.size() == want.size(), "%zu profile ids, expected %zu", got.size(), want.size());
	for (size_t i = 0; i < got.size(); i++) CHECK(got[i] == want[i], "profile id %zu is %u, expected %u", i, got[i], want[i]);
	if (want.size() > 1 && (odd || n > 1)) nontrivial();
	fiftyoneDegreesEvidenceFree(e); alloc::expectNone("after the evidence was freed");
}
void overridingProperty(Src &s) {
	auto names = makeNames(s, (size_t)s.range(1, 8)); Available av(names); for (auto &n : names) log("%s", quote(n).c_str()); if (names.empty()) discard();
	for (uint32_t i = 0; i < names.size(); i++) {
		int exact = -1, lenient = -1;
		for (uint32_t j = 0; j < names.size(); j++) if (j != i && names[j].size() > names[i].size()) {
			if (exact < 0 && names[j].compare(0, names[i].size(), names[i]) == 0) exact = (int)j;
			if (lenient < 0 && low(names[j]).compare(0, names[i].size(), low(names[i])) == 0) lenient = (int)j;
		}
		int got = overriding(av.a, i); if (exact >= 0) nontrivial();
		CHECK(got == exact || got == lenient, "%s might be overridden by %d, expected %d", quote(names[i]).c_str(), got, exact);
	}
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Property names differ ignoring case, are not empty and do not start with the override prefix.", "Values are at most 32766 characters." };
	suite("values", values, 120000, 6000000, "some evidence named an overridable property and some did not");
	suite("profiles", profiles, 80000, 6000000, "more than one profile id among several pairs");
	suite("overriding", overridingProperty, 20000, 2000000, "a property's name starts with another's");
	return runMain(argc, argv, o);
}
