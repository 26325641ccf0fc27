// C24: profiles, properties, values and components resolve consistently.
#include "model.hpp"
using namespace pbt;
using namespace model;
extern "C" {
const fiftyoneDegreesComponentKeyValuePair *getPair(fiftyoneDegreesComponent *, uint16_t, fiftyoneDegreesException *) asm("fiftyoneDegreesComponentGetKeyValuePair");
void initList(fiftyoneDegreesCollection *, fiftyoneDegreesList *, uint32_t, fiftyoneDegreesException *) asm("fiftyoneDegreesComponentInitList");
}
namespace {
const char *keyName[] = { "strings", "components", "properties", "values", "profiles", "offsets" };
struct Ctx { Set d; Opened o; Src *s; };
void okay(fiftyoneDegreesException *exception, const char *what) { CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY, "%s failed with status %d", what, (int)exception->status); }
void expectString(Ctx &x, fiftyoneDegreesString *str, Item *it, uint32_t offset, const char *what) {
	CHECK(str != nullptr, "%s not found", what);
	const Bytes &want = x.d.strings[offset];
	CHECK(str->size == (int16_t)want.size() && memcmp(&str->value, want.data(), want.size()) == 0, "%s is not the string at %u", what, offset);
	release(x.o.c[STRINGS], it);
}
void expectProperty(Ctx &x, const fiftyoneDegreesProperty *p, size_t i) {
	auto &m = x.d.props[i];
	CHECK(p->componentIndex == m.comp && p->valueType == m.type && p->isList == m.isList && p->nameOffset == m.nameOff && p->firstValueIndex == m.first && p->lastValueIndex == m.last && p->defaultValueIndex == m.def, "property found is not number %zu", i);
}
void properties(Ctx &x) {
	Src &s = *x.s; auto *ps = x.o.c[PROPERTIES], *ss = x.o.c[STRINGS];
	for (int k = 0; k < 4; k++) {
		std::string q = !x.d.props.empty() && s.chance(2, 3) ? s.pick(x.d.props).name : word(s, 8);
		if (s.chance(1, 6)) q += "x"; else if (s.chance(1, 6)) q.pop_back();
		size_t want = x.d.props.size(); for (size_t i = 0; i < x.d.props.size(); i++) if (x.d.props[i].name == q) want = i;
		Item it; resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesPropertyGetByName(ps, ss, q.c_str(), &it, exception);
		okay(exception, "property by name");
		CHECK((p != nullptr) == (want < x.d.props.size()), "property %s %s", quote(q).c_str(), p ? "found although absent" : "not found");
		if (p != nullptr) { expectProperty(x, p, want); release(ps, &it); label("property found by name"); } else label("property absent");
	}
	for (size_t i = 0; i < x.d.props.size() + 1; i++) {
		Item it, st; resetItem(&it); resetItem(&st); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesPropertyGet(ps, (uint32_t)i, &it, exception);
		if (i == x.d.props.size()) { CHECK(p == nullptr && FIFTYONE_DEGREES_EXCEPTION_FAILED, "property after the last one found"); break; }
		okay(exception, "property by index"); CHECK(p != nullptr, "property %zu not found", i); expectProperty(x, p, i);
		auto &m = x.d.props[i];
		expectString(x, fiftyoneDegreesPropertyGetName(ss, p, &st, exception), &st, m.nameOff, "property name");
		expectString(x, fiftyoneDegreesPropertyGetDescription(ss, p, &st, exception), &st, m.descOff, "property description");
		expectString(x, fiftyoneDegreesPropertyGetCategory(ss, p, &st, exception), &st, m.catOff, "property category");
		expectString(x, fiftyoneDegreesPropertyGetUrl(ss, p, &st, exception), &st, m.urlOff, "property url");
		release(ps, &it);
		CHECK(fiftyoneDegreesPropertyGetValueType(ps, (uint32_t)i, exception) == m.type, "value type of property %zu", i);
		okay(exception, "property strings");
	}
}
void values(Ctx &x) {
	Src &s = *x.s; auto *vs = x.o.c[VALUES], *ss = x.o.c[STRINGS];
	for (size_t i = 0; i < x.d.props.size(); i++) {
		auto &m = x.d.props[i]; Item pit; resetItem(&pit); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesPropertyGet(x.o.c[PROPERTIES], (uint32_t)i, &pit, exception); CHECK(p != nullptr, "property %zu not found", i);
		for (int k = 0; k < 5; k++) {
			std::string q; size_t nv = m.first == UINT32_MAX ? 0 : m.last - m.first + 1;
			if (nv > 0 && s.chance(2, 3)) { size_t at = s.chance(1, 3) ? (s.chance(1, 2) ? 0 : nv - 1) : (size_t)s.below(nv); q = x.d.values[m.first + at].text; }
			else if (m.kind == 1) q = s.chance(1, 2) ? "1.5,2.5" : s.chance(1, 2) ? "1.5" : "north";
			else if (m.kind == 2) q = s.pick(std::vector<std::string>{ "10.10.10.10", "::1", "not an address", "", "1.2.3.4", "2020::", "999" });
			else if (!x.d.values.empty() && s.chance(1, 2)) { auto &v = s.pick(x.d.values); q = v.text; } else q = word(s, 6);
			if (m.kind == 2 && nv > 0 && s.chance(1, 3)) { Bytes b = x.d.values[m.first + (size_t)s.below(nv)].stored.substr(1); bool six = s.chance(1, 2); b.resize(six ? 16 : 4, '\0'); char t[80]; inet_ntop(six ? AF_INET6 : AF_INET, b.data(), t, sizeof t); q = t; label("the same first bytes"); }
			if (m.kind == 0 && s.chance(1, 6)) q += "a";
			long want = -1; for (size_t v = 0; v < nv; v++) if (x.d.values[m.first + v].text == q) want = (long)(m.first + v);
			if (m.kind == 2 && want < 0) for (size_t v = 0; v < nv; v++) { // another spelling of an address
				char a[16]; const Bytes &b = x.d.values[m.first + v].stored; if (inet_pton(b.size() == 5 ? AF_INET : AF_INET6, q.c_str(), a) == 1 && memcmp(a, b.data() + 1, b.size() - 1) == 0) want = (long)(m.first + v); }
			if (m.kind == 1 && want < 0) for (size_t v = 0; v < nv; v++) { float a, b; if (sscanf(q.c_str(), "%f,%f", &a, &b) == 2) { const Bytes &st = x.d.values[m.first + v].stored; if (memcmp(&a, st.data() + 1, 4) == 0 && memcmp(&b, st.data() + 5, 4) == 0) want = (long)(m.first + v); } }
			long r = fiftyoneDegreesValueGetIndexByName(vs, ss, p, q.c_str(), exception);
			okay(exception, "value index by name");
			CHECK(r == want, "value %s of property %s found at %ld, it is at %ld", quote(q).c_str(), quote(m.name).c_str(), r, want);
			Item it; resetItem(&it);
			auto *v = fiftyoneDegreesValueGetByName(vs, ss, p, q.c_str(), &it, exception);
			okay(exception, "value by name");
			CHECK((v != nullptr) == (want >= 0), "value %s %s", quote(q).c_str(), v ? "found although absent" : "not found");
			if (v != nullptr) { CHECK(v->propertyIndex == (int)i && (uint32_t)v->nameOffset == x.d.values[(size_t)want].nameOffset, "another value found"); release(vs, &it); label(m.kind == 0 ? "value found" : m.kind == 1 ? "coordinate value found" : "address value found"); }
			else label(nv == 0 ? "property without values" : "value absent");
		}
		release(x.o.c[PROPERTIES], &pit);
	}
	for (int k = 0; k < 3 && !x.d.values.empty(); k++) {
		uint32_t i = (uint32_t)s.below(x.d.values.size()); auto &m = x.d.values[i]; Item it, st; resetItem(&it); resetItem(&st); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *v = fiftyoneDegreesValueGet(vs, i, &it, exception); CHECK(v != nullptr && v->propertyIndex == (int)m.prop, "value %u", i);
		expectString(x, fiftyoneDegreesValueGetName(ss, v, &st, exception), &st, m.nameOffset, "value name");
		expectString(x, fiftyoneDegreesValueGetDescription(ss, v, &st, exception), &st, m.descOffset, "value description");
		expectString(x, fiftyoneDegreesValueGetUrl(ss, v, &st, exception), &st, m.urlOffset, "value url");
		release(vs, &it); okay(exception, "value");
	}
}
struct Seen { Ctx *x; std::vector<uint32_t> keys; size_t stopAt; std::vector<Item> kept; size_t keep; };
bool onValue(void *state, Item *item) {
	Seen *st = (Seen *)state; auto *v = (fiftyoneDegreesValue *)item->data.ptr;
	uint32_t idx = UINT32_MAX; for (uint32_t i = st->keys.empty() ? 0 : st->keys.back() + 1; i < st->x->d.values.size(); i++) if (memcmp(v, st->x->d.body[VALUES].body.data() + i * sizeof *v, sizeof *v) == 0 ) { idx = i; break; }
	st->keys.push_back(idx);
	if (st->kept.size() < st->keep) st->kept.push_back(*item); else release(st->x->o.c[VALUES], item);
	return st->keys.size() < st->stopAt;
}
bool onProfile(void *state, Item *item) { Seen *st = (Seen *)state; st->keys.push_back(((fiftyoneDegreesProfile *)item->data.ptr)->profileId); return st->keys.size() < st->stopAt; }
void profiles(Ctx &x) {
	Src &s = *x.s; auto *os = x.o.c[OFFSETS], *prs = x.o.c[PROFILES];
	for (int k = 0; k < 4; k++) {
		uint32_t id = !x.d.profs.empty() && s.chance(2, 3) ? s.pick(x.d.profs).id : (uint32_t)s.small(1, 60);
		const Prof *want = nullptr; for (auto &p : x.d.profs) if (p.id == id) want = &p;
		Item it; resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesProfileGetByProfileId(os, prs, id, &it, exception);
		okay(exception, "profile by id");
		CHECK((p != nullptr) == (want != nullptr), "profile %u %s", id, p ? "found although absent" : "not found");
		if (p == nullptr) { label("profile absent"); continue; }
		CHECK(p->profileId == id && p->componentIndex == want->comp && p->valueCount == want->values.size() && memcmp(p + 1, want->values.data(), want->values.size() * 4) == 0, "profile found is not %u", id);
		release(prs, &it);
	}
	for (size_t i = 0; i <= x.d.profs.size(); i++) {
		Item it; resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesProfileGetByIndex(os, prs, (uint32_t)i, &it, exception);
		if (i == x.d.profs.size()) { CHECK(p == nullptr && FIFTYONE_DEGREES_EXCEPTION_FAILED, "profile after the last one found"); break; }
		okay(exception, "profile by index"); CHECK(p != nullptr && p->profileId == x.d.profs[i].id, "profile %zu is not the one at that index", i);
		// its values for each property
		for (int k = 0; k < 3 && !x.d.props.empty(); k++) {
			size_t pi = (size_t)s.below(x.d.props.size()); auto &m = x.d.props[pi];
			std::vector<uint32_t> want; for (auto v : x.d.profs[i].values) if (x.d.values[v].prop == pi) want.push_back(v);
			Bytes pb = x.d.body[PROPERTIES].body.substr(pi * sizeof(fiftyoneDegreesProperty), sizeof(fiftyoneDegreesProperty)); auto &prop = *(fiftyoneDegreesProperty *)&pb[0]; (void)m;
			Seen st{ &x, {}, s.chance(1, 4) ? (size_t)s.range(1, 4) : SIZE_MAX, {}, x.o.how[VALUES].cached() ? (size_t)s.below(x.o.how[VALUES].holdable()) : (size_t)s.below(4) };
			uint32_t n = fiftyoneDegreesProfileIterateValuesForProperty(x.o.c[VALUES], p, &prop, &st, onValue, exception);
			okay(exception, "iterating values");
			if (want.size() > st.stopAt) { want.resize(st.stopAt); label("iteration stopped early"); }
			CHECK(n == want.size(), "%u values iterated, the profile has %zu", n, want.size());
			CHECK(st.keys == want, "values iterated are not those of the property in order");
			if (want.size() > 1) label("several values of a property");
			for (auto &kpt : st.kept) { uint32_t off = ((fiftyoneDegreesValue *)kpt.data.ptr)->nameOffset; CHECK(off == (uint32_t)x.d.values[want[&kpt - &st.kept[0]]].nameOffset, "value changed while held"); release(x.o.c[VALUES], &kpt); }
		}
		release(prs, &it);
	}
	for (int k = 0; k < 4; k++) {
		std::string pn = !x.d.props.empty() && !s.chance(1, 6) ? s.pick(x.d.props).name : word(s, 5);
		size_t pi = x.d.props.size(); for (size_t i = 0; i < x.d.props.size(); i++) if (x.d.props[i].name == pn) pi = i;
		std::string vn = word(s, 5); uint32_t vi = UINT32_MAX;
		if (pi < x.d.props.size() && x.d.props[pi].first != UINT32_MAX && s.chance(4, 5)) { vi = (uint32_t)s.range(x.d.props[pi].first, x.d.props[pi].last); vn = x.d.values[vi].text; }
		else if (pi < x.d.props.size() && x.d.props[pi].first != UINT32_MAX) for (uint32_t v = x.d.props[pi].first; v <= x.d.props[pi].last; v++) if (x.d.values[v].text == vn) vi = v;
		std::vector<uint32_t> want; if (vi != UINT32_MAX) for (auto &p : x.d.profs) if (std::find(p.values.begin(), p.values.end(), vi) != p.values.end()) want.push_back(p.id);
		Seen st{ &x, {}, s.chance(1, 6) ? (size_t)s.range(1, 3) : SIZE_MAX, {}, 0 }; FIFTYONE_DEGREES_EXCEPTION_CREATE
		uint32_t n = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(x.o.c[STRINGS], x.o.c[PROPERTIES], x.o.c[VALUES], prs, os, pn.c_str(), vn.c_str(), &st, onProfile, exception);
		okay(exception, "iterating profiles");
		if (want.size() > st.stopAt) { want.resize(st.stopAt); label("iteration stopped early"); }
		CHECK(n == want.size() && st.keys == want, "%u profiles iterated for %s=%s, %zu have the value", n, quote(pn).c_str(), quote(vn).c_str(), want.size());
		if (!want.empty()) label("profiles found for a value");
	}
}
void components(Ctx &x) {
	Src &s = *x.s; fiftyoneDegreesList l; FIFTYONE_DEGREES_EXCEPTION_CREATE
	initList(x.o.c[COMPONENTS], &l, (uint32_t)x.d.comps.size(), exception);
	okay(exception, "listing components"); CHECK(l.count == x.d.comps.size(), "%u components listed of %zu", l.count, x.d.comps.size());
	for (size_t i = 0; i < x.d.comps.size(); i++) {
		auto *c = (fiftyoneDegreesComponent *)l.items[i].data.ptr; auto &m = x.d.comps[i]; Item st; resetItem(&st);
		CHECK(c->componentId == m.id && c->keyValuesCount == m.pairs.size(), "component %zu is another", i);
		expectString(x, fiftyoneDegreesComponentGetName(x.o.c[STRINGS], c, &st, exception), &st, m.nameOff, "component name");
		if (!x.d.profs.empty()) {
			uint32_t want = 0; for (auto &p : x.d.profs) if (p.offset == m.defProfile) want = p.id;
			CHECK(fiftyoneDegreesComponentGetDefaultProfileId(x.o.c[PROFILES], c, exception) == want, "default profile of component %zu", i);
		}
		okay(exception, "component");
		for (size_t k = 0; k < m.pairs.size(); k++) { auto *kv = getPair(c, (uint16_t)k, exception); okay(exception, "pair"); uint32_t a, b; memcpy(&a, &kv->key, 4); memcpy(&b, &kv->value, 4); CHECK(a == m.pairs[k].first && b == m.pairs[k].second, "pair %zu of component %zu", k, i); }
		FIFTYONE_DEGREES_EXCEPTION_CLEAR
		auto *kv = getPair(c, (uint16_t)(m.pairs.size() + (s.chance(1, 2) ? 0 : s.below(100))), exception);
		CHECK(kv == nullptr && FIFTYONE_DEGREES_EXCEPTION_FAILED, "a pair after the last one");
		FIFTYONE_DEGREES_EXCEPTION_CLEAR
	}
	fiftyoneDegreesListFree(&l);
}
void resolve(Src &s) {
	alloc::begin(); Ctx x; x.s = &s; x.d = make(s); x.o.open(s, x.d);
	for (int i = 0; i < COLLECTIONS; i++) log("%s: %zu items, %s", keyName[i], x.d.body[i].items.size(), x.o.how[i].text().c_str());
	size_t live = alloc::live(); bool exact = !x.o.anyCached();
	int rounds = (int)s.range(1, 2);
	for (int r = 0; r < rounds; r++) {
		properties(x); if (exact) alloc::expectCount(live, "after looking at properties");
		values(x); if (exact) alloc::expectCount(live, "after looking at values");
		profiles(x); if (exact) alloc::expectCount(live, "after looking at profiles");
		components(x); if (exact) alloc::expectCount(live, "after looking at components");
	}
	bool useful = x.d.values.size() > 3 && x.d.profs.size() > 2 && x.d.props.size() > 1;
	x.o.close(x.d); alloc::expectNone("at the end");
	if (useful) nontrivial();
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Data sets are well formed: values grouped by property and sorted by name, profile values ascending, profile offsets sorted by id." };
	suite("resolve", resolve, 50000, 6000000, "more than 3 values, 2 profiles and 1 property");
	return runMain(argc, argv, o);
}
