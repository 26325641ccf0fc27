// C25: running out of memory is reported, never fatal.
#include "Exceptions.hpp"
#include "probe.hpp"
#include "model.hpp"
#include "ip.h"
#include "ConfigBase.hpp"
#include "RequiredPropertiesConfig.hpp"
#include <functional>
namespace Fod = FiftyoneDegrees::Common;
extern "C" {
fiftyoneDegreesOverridePropertyArray *propsCreate(fiftyoneDegreesPropertiesAvailable *, bool, void *, fiftyoneDegreesOverridesFilterMethod) asm("fiftyoneDegreesOverridePropertiesCreate");
void propsFree(fiftyoneDegreesOverridePropertyArray *) asm("fiftyoneDegreesOverridePropertiesFree");
uint32_t extract(fiftyoneDegreesOverridePropertyArray *, fiftyoneDegreesOverrideValueArray *, fiftyoneDegreesEvidenceKeyValuePairArray *) asm("fiftyoneDegreesOverridesExtractFromEvidence");
fiftyoneDegreesString *getFirst(fiftyoneDegreesOverrideValueArray *, uint32_t, fiftyoneDegreesCollectionItem *) asm("fiftyoneDegreesOverrideValuesGetFirst");
void initComponents(fiftyoneDegreesCollection *, fiftyoneDegreesList *, uint32_t, fiftyoneDegreesException *) asm("fiftyoneDegreesComponentInitList");
fiftyoneDegreesEvidenceIpAddress *parseAddresses(void *(*)(size_t), const char *) asm("fiftyoneDegreesIpParseAddresses");
void freeAddresses(void (*)(void *), fiftyoneDegreesEvidenceIpAddress *) asm("fiftyoneDegreesIpFreeAddresses");
}
namespace {
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
const bool memoryOnly = true; // items are not released there
#else
const bool memoryOnly = false;
#endif
// One run of a scenario: what came out, and whether a failure was reported.
struct Run { bool retry = false, reported = false; Str out; size_t refusals = 0; };
typedef std::function<void(Run &)> Scenario;
std::function<void()> finish; // releases what a scenario keeps between its runs
// Does f, which says whether it worked. It may only fail for lack of memory. When
// retrying it is done again with memory available and must then work.
template <class F> bool attempt(Run &r, const char *what, F f) {
	if (f()) return true;
	CHECK(alloc::S().armed && alloc::S().failed > 0, "%s was refused although there was memory", what);
	r.reported = true; r.refusals++; label(what);
	if (!r.retry) return false;
	alloc::disarm(); log("%s again", what);
	CHECK(f(), "%s was refused again once there was memory", what);
	return true;
}
bool okay(fiftyoneDegreesException *exception) { return FIFTYONE_DEGREES_EXCEPTION_OKAY; }
void put(Run &r, const Str &t) { r.out += t; r.out += '\n'; }
void put(Run &r, long v) { put(r, std::to_string(v)); }
Str path(const char *name) { return G().scratch + "/m" + std::to_string(getpid()) + name; }

// ---- cache
void cacheLoad(const void *, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	int32_t k; memcpy(&k, key, 4); size_t n = 1 + (size_t)(uint32_t)k % 37;
	byte *p = (byte *)fiftyoneDegreesDataMalloc(data, n);
	if (p == nullptr) { FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY); return; }
	memset(p, k & 0x7F, n); data->used = (uint32_t)n;
}
Scenario cacheScenario(Src &s) {
	uint16_t conc = (uint16_t)s.range(1, 4); uint32_t capacity = (uint32_t)(conc * conc + s.small(0, 12)); size_t room = capacity / conc;
	struct Op { bool get; int32_t key; size_t which; }; std::vector<Op> ops; size_t held = 0;
	for (size_t k = (size_t)s.range(1, 30); k-- > 0;) { bool get = held == 0 || (held < room && s.chance(1, 2)); ops.push_back({ get, (int32_t)s.range(-8, 15), (size_t)s.below(held ? held : 1) }); held += get ? 1 : -1; }
	log("cache of %u for %u threads, %zu operations", capacity, conc, ops.size());
	return [=](Run &r) {
		fiftyoneDegreesCache *c = nullptr;
		if (!attempt(r, "cache creation", [&] { c = fiftyoneDegreesCacheCreate(capacity, conc, cacheLoad, fiftyoneDegreesCacheHash32, nullptr); return c != nullptr; })) return;
		std::vector<fiftyoneDegreesCacheNode *> got;
		for (auto &o : ops) {
			if (o.get) {
				fiftyoneDegreesCacheNode *n = nullptr; int32_t key = o.key;
				bool ok = attempt(r, "cache load", [&] { FIFTYONE_DEGREES_EXCEPTION_CREATE n = fiftyoneDegreesCacheGet(c, &key, exception); CHECK(n == nullptr || okay(exception), "an item was given with status %d", (int)exception->status); CHECK(n != nullptr || !okay(exception), "no item and no reason"); return n != nullptr; });
				if (!ok) { put(r, "refused"); got.push_back(nullptr); continue; }
				got.push_back(n); size_t w = 1 + (size_t)(uint32_t)key % 37; Str v((char *)n->data.ptr, n->data.used);
				CHECK(v == Str(w, (char)(key & 0x7F)), "key %d has another value", key); put(r, key);
			}
			else { size_t i = o.which < got.size() ? o.which : 0; if (got[i]) fiftyoneDegreesCacheRelease(got[i]); got.erase(got.begin() + (long)i); }
		}
		for (auto *n : got) if (n) fiftyoneDegreesCacheRelease(n);
		fiftyoneDegreesCacheFree(c);
	};
}
// ---- pools and collections
Scenario collectionScenario(Src &s) {
	struct In { coll::Source src; std::vector<coll::How> how; std::vector<std::pair<size_t, size_t>> gets; std::vector<bool> keep; uint16_t handles; }; auto in = std::make_shared<In>();
	std::vector<coll::Body> bodies; size_t n = (size_t)s.range(1, 3);
	for (size_t i = 0; i < n; i++) {
		if (s.chance(1, 2)) { uint32_t e = (uint32_t)s.range(1, 12), c = (uint32_t)s.range(1, 20); bodies.push_back(coll::fixedData(e, c, s.chance(1, 2), s.bytes(e * c))); }
		else { auto b = coll::variableData(readString); for (size_t k = (size_t)s.range(1, 12); k-- > 0;) coll::addString(b, s.chars("abc", (size_t)s.small(0, 30))); bodies.push_back(b); }
	}
	in->src.build(s, bodies); in->handles = (uint16_t)s.range(1, 4);
	for (auto &b : bodies) { coll::How h = coll::config(s, (uint32_t)b.items.size()); in->how.push_back(h); log("%zu items, %s", b.items.size(), h.text().c_str()); }
	for (size_t k = (size_t)s.range(1, 14); k-- > 0;) { size_t i = s.below(n); in->gets.push_back({ i, (size_t)s.below(bodies[i].items.size()) }); in->keep.push_back(s.chance(1, 4)); }
	in->src.write(); in->src.file = fopen(in->src.path.c_str(), "rb"); if (!in->src.file) abort();
	finish = [in] { in->src.poolOpen = false; in->src.close(); };
	return [in](Run &r) {
		auto &src = in->src; src.handles = in->handles; memset(&src.pool, 0, sizeof src.pool);
		if (!attempt(r, "file pool", [&] { FIFTYONE_DEGREES_EXCEPTION_CREATE auto st = fiftyoneDegreesFilePoolInit(&src.pool, src.path.c_str(), src.handles, exception); if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) CHECK(st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "pool refused with %d", (int)st); return st == FIFTYONE_DEGREES_STATUS_SUCCESS && okay(exception); })) { fiftyoneDegreesFilePoolRelease(&src.pool); return; }
		std::vector<coll::C *> cs; bool all = true;
		for (size_t i = 0; i < in->how.size() && all; i++) { coll::C *c = nullptr; all = attempt(r, "collection creation", [&] { c = src.make(i, in->how[i]); return c != nullptr; }); if (all) cs.push_back(c); }
		if (all) {
			std::vector<std::pair<coll::C *, coll::Item>> kept; std::vector<size_t> keptOf(cs.size(), 0);
			for (size_t k = 0; k < in->gets.size(); k++) {
				size_t i = in->gets[k].first; auto &e = src.data[i].items[in->gets[k].second]; coll::Item it; byte *p = nullptr;
				bool ok = attempt(r, "collection item", [&] { coll::resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE p = (byte *)cs[i]->get(cs[i], e.key, &it, exception); CHECK((p != nullptr) == okay(exception), "item %p with status %d", (void *)p, (int)exception->status); return p != nullptr; });
				if (!ok) { put(r, "refused"); continue; }
				CHECK(memcmp(p, src.data[i].body.data() + e.offset, e.size) == 0, "item %u of collection %zu has other bytes", e.key, i); put(r, e.key);
				if (in->keep[k] && keptOf[i] + 1 < in->how[i].holdable()) { keptOf[i]++; kept.push_back({ cs[i], it }); } else coll::release(cs[i], &it);
			}
			for (auto &x : kept) coll::release(x.first, &x.second);
			coll::checkPool(src, "after the items were released");
		}
		for (auto *c : cs) c->freeCollection(c);
		coll::checkPool(src, "after the collections were freed"); fiftyoneDegreesFilePoolRelease(&src.pool);
		for (auto &b : src.blocks) free(b.first); src.blocks.clear();
	};
}
// ---- finding things in a data set whose collections are read as needed
Scenario lookupScenario(Src &s) {
	struct In { model::Set d; model::Opened o; std::vector<std::function<bool(Run &)>> ops; ~In() {} }; auto in = std::make_shared<In>();
	in->d = model::make(s); in->o.open(s, in->d); auto *x = in.get();
	for (int i = 0; i < model::COLLECTIONS; i++) log("collection %d: %zu items, %s", i, x->d.body[i].items.size(), x->o.how[i].text().c_str());
	auto text = [x](Run &r, const char *what, fiftyoneDegreesString *t, coll::Item *it, fiftyoneDegreesException *exception) { (void)what; if (!okay(exception)) return false; CHECK(t != nullptr, "nothing and no reason"); r.out += Str(&t->value, (size_t)t->size) + "\n"; coll::release(x->o.c[model::STRINGS], it); return true; };
	size_t n = (size_t)s.range(1, 8);
	for (size_t k = 0; k < n; k++) switch (s.below(6)) {
	case 0: { Str q = !x->d.props.empty() && s.chance(4, 5) ? s.pick(x->d.props).name : "none"; x->ops.push_back([=](Run &r) {
		coll::Item it, st; coll::resetItem(&it); coll::resetItem(&st); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesPropertyGetByName(x->o.c[model::PROPERTIES], x->o.c[model::STRINGS], q.c_str(), &it, exception); if (!okay(exception)) { CHECK(p == nullptr, "a property with status %d", (int)exception->status); return false; }
		if (p == nullptr) { put(r, "absent"); return true; }
		auto *d = fiftyoneDegreesPropertyGetDescription(x->o.c[model::STRINGS], p, &st, exception); bool ok = text(r, "description", d, &st, exception); coll::release(x->o.c[model::PROPERTIES], &it); return ok; }); break; }
	case 1: { if (x->d.props.empty()) break; size_t pi = s.below(x->d.props.size()); auto &m = x->d.props[pi]; Str q = m.first != UINT32_MAX && s.chance(4, 5) ? x->d.values[(size_t)s.range(m.first, m.last)].text : m.kind == 0 ? "none" : "1.5,2.5"; x->ops.push_back([=](Run &r) {
		coll::Item it, vt; coll::resetItem(&it); coll::resetItem(&vt); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesPropertyGet(x->o.c[model::PROPERTIES], (uint32_t)pi, &it, exception); if (!okay(exception)) { CHECK(p == nullptr, "a property with status %d", (int)exception->status); return false; }
		long i = fiftyoneDegreesValueGetIndexByName(x->o.c[model::VALUES], x->o.c[model::STRINGS], p, q.c_str(), exception); bool ok = okay(exception); Str o = std::to_string(i);
		if (ok) { auto *v = fiftyoneDegreesValueGetByName(x->o.c[model::VALUES], x->o.c[model::STRINGS], p, q.c_str(), &vt, exception); ok = okay(exception); if (ok && v) { o += " at " + std::to_string(v->nameOffset); coll::release(x->o.c[model::VALUES], &vt); } else CHECK(v == nullptr, "a value with status %d", (int)exception->status); }
		coll::release(x->o.c[model::PROPERTIES], &it); if (ok) put(r, o); return ok; }); break; }
	case 2: { uint32_t id = !x->d.profs.empty() && s.chance(4, 5) ? s.pick(x->d.profs).id : 4000000000u; size_t pi = x->d.props.empty() ? 0 : s.below(x->d.props.size()); x->ops.push_back([=](Run &r) {
		coll::Item it; coll::resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE
		auto *p = fiftyoneDegreesProfileGetByProfileId(x->o.c[model::OFFSETS], x->o.c[model::PROFILES], id, &it, exception); if (!okay(exception)) { CHECK(p == nullptr, "a profile with status %d", (int)exception->status); return false; }
		if (p == nullptr) { put(r, "absent"); return true; }
		Str o = "profile " + std::to_string(p->profileId) + ":"; bool ok = true;
		if (!x->d.props.empty()) {
			Str pb = x->d.body[model::PROPERTIES].body.substr(pi * sizeof(fiftyoneDegreesProperty), sizeof(fiftyoneDegreesProperty)); auto &prop = *(fiftyoneDegreesProperty *)&pb[0];
			struct St { Str *o; coll::C *c; } st{ &o, x->o.c[model::VALUES] };
			fiftyoneDegreesProfileIterateValuesForProperty(x->o.c[model::VALUES], p, &prop, &st, [](void *state, coll::Item *v) { St *t = (St *)state; *t->o += " " + std::to_string(((fiftyoneDegreesValue *)v->data.ptr)->nameOffset); coll::release(t->c, v); return true; }, exception);
			ok = okay(exception);
		}
		coll::release(x->o.c[model::PROFILES], &it); if (ok) put(r, o); return ok; }); break; }
	case 3: { if (x->d.values.empty()) break; auto v = s.pick(x->d.values); Str pn = x->d.props[v.prop].name; x->ops.push_back([=](Run &r) {
		Str o; FIFTYONE_DEGREES_EXCEPTION_CREATE
		uint32_t c = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(x->o.c[model::STRINGS], x->o.c[model::PROPERTIES], x->o.c[model::VALUES], x->o.c[model::PROFILES], x->o.c[model::OFFSETS], pn.c_str(), v.text.c_str(), &o, [](void *state, coll::Item *p) { *(Str *)state += " " + std::to_string(((fiftyoneDegreesProfile *)p->data.ptr)->profileId); return true; }, exception);
		if (!okay(exception)) return false; put(r, std::to_string(c) + " profiles" + o); return true; }); break; }
	case 4: x->ops.push_back([=](Run &r) {
		fiftyoneDegreesList l; fiftyoneDegreesListReset(&l); FIFTYONE_DEGREES_EXCEPTION_CREATE initComponents(x->o.c[model::COMPONENTS], &l, (uint32_t)x->d.comps.size(), exception); if (!okay(exception)) { fiftyoneDegreesListFree(&l); return false; }
		Str o = "components"; for (uint32_t i = 0; i < l.count; i++) o += " " + std::to_string(((fiftyoneDegreesComponent *)l.items[i].data.ptr)->componentId); fiftyoneDegreesListFree(&l); put(r, o); return true; }); break;
	default: { if (x->d.comps.empty()) break; size_t ci = s.below(x->d.comps.size()); x->ops.push_back([=](Run &r) {
		coll::Item it, st; coll::resetItem(&it); coll::resetItem(&st); FIFTYONE_DEGREES_EXCEPTION_CREATE auto *cs = x->o.c[model::COMPONENTS];
		auto *p = (fiftyoneDegreesComponent *)cs->get(cs, x->d.body[model::COMPONENTS].items[ci].key, &it, exception); if (!okay(exception)) { CHECK(p == nullptr, "a component with status %d", (int)exception->status); return false; }
		bool ok = text(r, "name", fiftyoneDegreesComponentGetName(x->o.c[model::STRINGS], p, &st, exception), &st, exception);
		if (ok && !x->d.profs.empty()) { uint32_t id = fiftyoneDegreesComponentGetDefaultProfileId(x->o.c[model::PROFILES], p, exception); ok = okay(exception); if (ok) put(r, id); }
		coll::release(cs, &it); return ok; }); }
	}
	bool exact = !x->o.anyCached(); label(exact ? "lookups without caches" : "lookups with caches");
	finish = [in, x] { x->o.close(x->d); alloc::expectNone("after the collections were freed"); };
	return [in, x, exact](Run &r) {
		size_t live = alloc::live();
		for (auto &op : x->ops) { Str before = r.out; if (!attempt(r, "lookup", [&] { r.out = before; return op(r); })) { r.out = before; put(r, "refused"); } if (exact) alloc::expectCount(live, "after a lookup"); }
	};
}
// ---- names from a source which needs memory for each
struct Names { fiftyoneDegreesCollection c; std::vector<Str> names; size_t out = 0; bool unread = false; bool allocates = true; std::map<uint32_t, Str> kept; };
void releaseName(fiftyoneDegreesCollectionItem *i) { Names *n = (Names *)i->collection; CHECK(n->out > 0, "a name was released twice"); n->out--; if (n->allocates) fiftyoneDegreesFree(i->data.ptr); else free(i->data.ptr); i->data.ptr = nullptr; }
fiftyoneDegreesString *nameAt(Names *n, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	if (index >= n->names.size()) return nullptr;
	const Str &t = n->names[index]; int16_t sz = (int16_t)(t.size() + 1);
	if (memoryOnly) { auto &k = n->kept[index]; if (k.empty()) k = Str((char *)&sz, 2) + t + Str(1, 0); item->data.ptr = (byte *)&k[0]; item->data.used = (uint32_t)k.size(); item->collection = &n->c; item->handle = nullptr; return (fiftyoneDegreesString *)item->data.ptr; }
	byte *p = (byte *)(n->allocates ? fiftyoneDegreesMalloc(3 + t.size()) : malloc(3 + t.size()));
	if (p == nullptr) { n->unread = true; return nullptr; }
	memcpy(p, &sz, 2); memcpy(p + 2, t.c_str(), t.size() + 1); n->out++;
	item->data.ptr = p; item->data.used = (uint32_t)(3 + t.size()); item->data.allocated = 0; item->collection = &n->c; item->handle = nullptr; return (fiftyoneDegreesString *)p;
}
long headerAt(void *st, uint32_t i, fiftyoneDegreesCollectionItem *item) { return nameAt((Names *)st, i, item) ? (long)i : -1; }
fiftyoneDegreesString *propertyAt(void *st, uint32_t i, fiftyoneDegreesCollectionItem *item) { return nameAt((Names *)st, i, item); }
uint32_t evidenceOf(void *, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) { uint32_t n = p->propertyIndex % 4; if (e) for (uint32_t i = 0; i < n; i++) e->items[i] = i + p->propertyIndex; return n; }
Scenario headersScenario(Src &s) {
	auto names = std::make_shared<Names>(); memset(&names->c, 0, sizeof names->c); names->c.release = releaseName;
	std::set<Str> seen; for (size_t k = (size_t)s.small(1, 12); k-- > 0;) { Str w; for (int p = 0, parts = (int)s.range(1, 3); p < parts; p++) { if (p) w += "\x1F"; w += s.chars("abcD-", (size_t)s.range(1, 5)); } names->names.push_back(w); }
	bool prefixed = s.chance(1, 2); names->allocates = s.chance(1, 2); log("%zu header names%s", names->names.size(), names->allocates ? ", read into memory" : "");
	struct Pair { int p; Str f, v; }; std::vector<Pair> pairs; for (auto &n : names->names) { Str part; for (char c : n + "\x1F") { if (c == '\x1F') { if (s.chance(4, 5)) pairs.push_back({ s.chance(1, 2) ? FIFTYONE_DEGREES_EVIDENCE_QUERY : FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, part, s.chars("xyz", (size_t)s.range(1, 9)) }); part.clear(); } else part += c; } }
	return [=](Run &r) {
		fiftyoneDegreesHeaders *h = nullptr;
		if (!attempt(r, "header list", [&] { names->unread = false; h = fiftyoneDegreesHeadersCreate(prefixed, names.get(), headerAt); if (h && names->unread) { /* the source knows that a name is missing */ fiftyoneDegreesHeadersFree(h); h = nullptr; } return h != nullptr; })) { CHECK(memoryOnly || names->out == 0, "%zu names are held", names->out); return; }
		CHECK(memoryOnly || names->out == 0, "%zu names are held", names->out);
		for (uint32_t i = 0; i < h->count; i++) put(r, Str(h->items[i].name) + (h->items[i].isDataSet ? "*" : ""));
		fiftyoneDegreesEvidenceKeyValuePairArray *e = nullptr, *pseudo = nullptr;
		bool ok = attempt(r, "evidence", [&] { e = fiftyoneDegreesEvidenceCreate((uint32_t)pairs.size()); return e != nullptr; }) && attempt(r, "evidence", [&] { pseudo = fiftyoneDegreesEvidenceCreate(h->pseudoHeadersCount); return pseudo != nullptr; });
		if (ok) {
			std::vector<std::vector<char>> buffers(h->pseudoHeadersCount, std::vector<char>(64)); for (uint32_t i = 0; i < h->pseudoHeadersCount; i++) pseudo->items[i].originalValue = buffers[i].data();
			for (auto &p : pairs) CHECK(fiftyoneDegreesEvidenceAddString(e, (fiftyoneDegreesEvidencePrefix)p.p, p.f.c_str(), p.v.c_str()) != nullptr, "a pair was refused");
			if (h->pseudoHeadersCount) e->pseudoEvidence = pseudo; fiftyoneDegreesEvidencePrefix order[] = { FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING };
			bool added = attempt(r, "combined headers", [&] { FIFTYONE_DEGREES_EXCEPTION_CREATE fiftyoneDegreesPseudoHeadersAddEvidence(e, h, 64, order, 2, exception); if (!okay(exception)) fiftyoneDegreesPseudoHeadersRemoveEvidence(e, 64); return okay(exception); });
			if (added) fiftyoneDegreesEvidenceIterate(e, INT32_MAX, &r, [](void *st, fiftyoneDegreesEvidenceKeyValuePair *p) { put(*(Run *)st, Str(p->field) + "=" + (const char *)p->parsedValue); return true; });
			else put(r, "refused");
			fiftyoneDegreesPseudoHeadersRemoveEvidence(e, 64);
		}
		fiftyoneDegreesEvidenceFree(e); fiftyoneDegreesEvidenceFree(pseudo); fiftyoneDegreesHeadersFree(h);
	};
}
Scenario propertiesScenario(Src &s) {
	auto names = std::make_shared<Names>(); memset(&names->c, 0, sizeof names->c); names->c.release = releaseName; names->names = distinct(s, (size_t)s.range(1, 9)); names->allocates = s.chance(1, 2);
	Str want; bool all = s.chance(1, 3); for (auto &n : names->names) if (s.chance(2, 3)) want += (want.empty() ? "" : ",") + n; if (want.empty()) all = true;
	struct Pair { Str f, v; }; std::vector<Pair> pairs; for (auto &n : names->names) if (s.chance(2, 3)) pairs.push_back({ n, s.chars("xyz", (size_t)s.below(30)) }); log("properties %s of %zu%s", all ? "all" : quote(want).c_str(), names->names.size(), names->allocates ? ", read into memory" : "");
	size_t listSize = (size_t)s.range(1, 9);
	return [=](Run &r) {
		fiftyoneDegreesPropertiesAvailable *a = nullptr; fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault; if (!all) req.string = want.c_str();
		if (!attempt(r, "property selection", [&] {
			names->unread = false; a = fiftyoneDegreesPropertiesCreate(&req, names.get(), propertyAt, evidenceOf); if (a == nullptr) { CHECK(memoryOnly || names->out == 0, "%zu names are held", names->out); return false; }
			bool whole = !names->unread; for (uint32_t i = 0; i < a->count; i++) whole &= a->items[i].evidenceProperties != nullptr && a->items[i].name.data.ptr != nullptr;
			if (!whole) { fiftyoneDegreesPropertiesFree(a); a = nullptr; CHECK(memoryOnly || names->out == 0, "%zu names are held", names->out); }
			return a != nullptr; })) return;
		for (uint32_t i = 0; i < a->count; i++) put(r, Str(&((fiftyoneDegreesString *)a->items[i].name.data.ptr)->value) + " " + std::to_string(a->items[i].propertyIndex) + " " + std::to_string(a->items[i].evidenceProperties->count));
		// overriding their values
		fiftyoneDegreesOverridePropertyArray *o = nullptr; fiftyoneDegreesOverrideValueArray *v = nullptr; fiftyoneDegreesEvidenceKeyValuePairArray *e = nullptr; fiftyoneDegreesList list; memset(&list, 0x5A, sizeof list); bool listed = false;
		bool ok = attempt(r, "overridable properties", [&] { o = propsCreate(a, false, nullptr, [](void *, uint32_t) { return true; }); return o != nullptr; })
			&& attempt(r, "override values", [&] { v = fiftyoneDegreesOverrideValuesCreate(a->count); return v != nullptr; })
			&& attempt(r, "evidence", [&] { e = fiftyoneDegreesEvidenceCreate((uint32_t)pairs.size()); return e != nullptr; })
			&& attempt(r, "list", [&] { return listed = fiftyoneDegreesListInit(&list, (uint32_t)listSize) != nullptr; });
		if (ok) {
			uint32_t expect = 0; for (auto &p : pairs) { fiftyoneDegreesEvidenceAddString(e, FIFTYONE_DEGREES_EVIDENCE_QUERY, p.f.c_str(), p.v.c_str()); expect += fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, p.f.c_str()) >= 0; }
			bool got = attempt(r, "overrides from evidence", [&] { fiftyoneDegreesOverrideValuesReset(v); uint32_t n = extract(o, v, e); CHECK(n <= expect && v->count == n, "%u of %u values extracted, %u kept", n, expect, v->count); return n == expect; });
			if (!got) put(r, "fewer");
			for (uint32_t i = 0; i < a->count; i++) { coll::Item it; memset(&it, 0, sizeof it); auto *t = getFirst(v, i, &it); if (t) { CHECK(list.count <= list.capacity, "list"); put(r, Str(&t->value)); it.collection->release(&it); } else put(r, "-"); }
			for (uint32_t i = 0; i < a->count && i < 3; i++) { Str t = "added " + std::to_string(i); if (!attempt(r, "adding an override", [&] { return fiftyoneDegreesOverridesAdd(v, (int)i, t.c_str()); })) put(r, "refused"); }
		}
		if (listed) fiftyoneDegreesListFree(&list);
		fiftyoneDegreesEvidenceFree(e); fiftyoneDegreesOverrideValuesFree(v); if (o) propsFree(o); fiftyoneDegreesPropertiesFree(a);
		CHECK(memoryOnly || names->out == 0, "%zu names are held", names->out);
	};
}
// ---- data sets
Scenario dataSetScenario(Src &s) {
	struct In { Content first, second; ProbeConfig c; Str dir, temp, a, b; const char *dirs[1]; bool fromMemory[2]; long cmp; ~In() { clear(dir); } }; auto in = std::make_shared<In>();
	in->first = make(s, 1, nullptr); in->second = make(s, 2, &in->first); in->dir = path("set"); clear(in->dir); mkdir(in->dir.c_str(), 0700); in->temp = in->dir + "/t"; mkdir(in->temp.c_str(), 0700);
	in->a = in->dir + "/a.dat"; in->b = in->dir + "/b.dat"; spit(in->a, in->first.bytes); spit(in->b, in->second.bytes);
	auto &c = in->c; memset(&c, 0, sizeof c); c.b.allInMemory = s.chance(1, 3); c.b.freeData = s.chance(1, 2); c.b.useTempFile = s.chance(1, 3); c.b.reuseTempFile = s.chance(1, 2); in->dirs[0] = in->temp.c_str(); c.b.tempDirs = in->dirs; c.b.tempDirCount = 1; c.concurrency = (uint16_t)s.range(2, 4); c.overridable = s.chance(1, 2);
	auto storage = [&](fiftyoneDegreesCollectionConfig &x) { x.loaded = s.chance(1, 3) ? (uint32_t)s.below(8) : 0; if (s.chance(1, 2)) { x.concurrency = 4; x.capacity = 40; } }; storage(c.strings); storage(c.numbers);
	in->fromMemory[0] = s.chance(1, 4); in->fromMemory[1] = s.chance(1, 4);
	log("%s%s%s, from %s, %s", c.b.allInMemory ? "in memory" : "streamed", c.b.useTempFile ? ", temporary copy" : "", c.b.reuseTempFile ? " used again" : "", in->fromMemory[0] ? "memory" : "file", in->fromMemory[1] ? "memory" : "file");
	return [in](Run &r) {
		auto &c = in->c; compared = -1; fiftyoneDegreesResourceManager m; DataSetProbe *held = nullptr; std::vector<void *> blobs; int open = coll::openFds();
		auto blob = [&](const Content &x) { void *p = c.b.freeData ? alloc::S().armed ? nullptr : fiftyoneDegreesMalloc(x.bytes.size()) : malloc(x.bytes.size()); if (p == nullptr) { bool was = alloc::S().armed; alloc::S().armed = false; p = fiftyoneDegreesMalloc(x.bytes.size()); alloc::S().armed = was; } memcpy(p, x.bytes.data(), x.bytes.size()); return p; };
		auto print = [&](DataSetProbe *d, const Content &want) {
			CHECK(d->serial == want.serial, "data set %u, expected %u", d->serial, want.serial); put(r, d->serial);
			auto *a = d->b.b.available; for (uint32_t i = 0; i < a->count; i++) put(r, Str(&((fiftyoneDegreesString *)a->items[i].name.data.ptr)->value) + " " + std::to_string(a->items[i].propertyIndex));
			if (d->b.b.overridable) for (uint32_t i = 0; i < d->b.b.overridable->count; i++) put(r, d->b.b.overridable->items[i].requiredPropertyIndex);
			for (uint32_t i = 0; i < a->count; i++) put(r, a->items[i].evidenceProperties->count);
			auto *h = d->b.b.uniqueHeaders; CHECK(h->count == want.headers.size(), "%u headers, expected %zu", h->count, want.headers.size()); for (uint32_t i = 0; i < h->count; i++) put(r, h->items[i].name);
		};
		bool started = attempt(r, "data set", [&] {
			FIFTYONE_DEGREES_EXCEPTION_CREATE size_t live = alloc::live(); fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault;
			DataSetProbe *d = (DataSetProbe *)fiftyoneDegreesMalloc(sizeof *d); if (d == nullptr) return false; Status st; void *b = nullptr;
			if (in->fromMemory[0]) { b = blob(in->first); st = initDataSetFromMemory(d, &c, &req, b, (long)in->first.bytes.size(), exception); if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) fiftyoneDegreesFree(d); }
			else st = initDataSetFromFile(d, &c, &req, in->a.c_str(), exception);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { fiftyoneDegreesResourceManagerInit(&m, d, &d->b.b.handle, freeProbe); if (d->b.b.handle == nullptr) { d->b.b.memoryToFree = in->fromMemory[0] ? nullptr : d->b.b.memoryToFree; freeProbe(d); st = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; } }
			if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) { if (b) { if (c.b.freeData) fiftyoneDegreesFree(b); else free(b); } alloc::expectCount(live, "after a refused data set"); CHECK(coll::openFds() == open, "descriptors are left"); CHECK(list(in->temp).empty() || (c.b.allInMemory && c.b.reuseTempFile), "a temporary file is left"); return false; }
			if (b && !c.b.freeData) blobs.push_back(b); return true;
		});
		if (started) {
			held = fiftyoneDegreesDataSetProbeGet(&m); print(held, in->first); int before = coll::openFds();
			bool changed = attempt(r, "reload", [&] {
				FIFTYONE_DEGREES_EXCEPTION_CREATE size_t live = alloc::live(); void *b = in->fromMemory[1] ? blob(in->second) : nullptr; if (b && c.b.freeData) live++;
				Status st = b ? fiftyoneDegreesProbeReloadManagerFromMemory(&m, b, (long)in->second.bytes.size(), exception) : fiftyoneDegreesProbeReloadManagerFromFile(&m, in->b.c_str(), exception);
				if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { if (b && !c.b.freeData) blobs.push_back(b); return true; }
				if (b) { if (!c.b.freeData) free(b); else { if (alloc::S().live.count(b)) fiftyoneDegreesFree(b); live--; } }
				alloc::expectCount(live, "after a refused reload"); CHECK(coll::openFds() == before, "descriptors are left after a refused reload"); return false;
			});
			DataSetProbe *now = fiftyoneDegreesDataSetProbeGet(&m); if (changed) print(now, in->second); else CHECK(now == held, "a refused data set became active");
			fiftyoneDegreesDataSetProbeRelease(now); fiftyoneDegreesDataSetProbeRelease(held); fiftyoneDegreesResourceManagerFree(&m);
		}
		for (auto *b : blobs) free(b);
		if (c.b.allInMemory && c.b.reuseTempFile) for (auto &p : list(in->temp)) unlink(p.c_str()); else CHECK(list(in->temp).empty(), "a temporary file is left at the end");
	};
}
// ---- the rest
Scenario filesScenario(Src &s) {
	struct In { Str dir, a, b; const char *dirs[1]; Str bytes; ~In() { clear(dir); } }; auto in = std::make_shared<In>(); in->dir = path("files"); clear(in->dir); mkdir(in->dir.c_str(), 0700); in->a = in->dir + "/a"; in->b = in->dir + "/b"; in->dirs[0] = in->dir.c_str(); in->bytes = s.bytes((size_t)s.range(1, 500)); spit(in->a, in->bytes);
	std::vector<int> codes; for (size_t k = (size_t)s.range(1, 4); k-- > 0;) codes.push_back((int)s.range(-2, 40)); Str ips; for (size_t k = (size_t)s.range(1, 4); k-- > 0;) ips += (ips.empty() ? "" : ",") + Str(s.chance(1, 2) ? "10.0.0.1" : "2001:db8::7"); int use = (int)s.range(1, 15);
	size_t want = 1 + (size_t)std::count(ips.begin(), ips.end(), ','); int dirs = (int)s.below(5); log("files, messages of %zu codes, %zu addresses, %d directories", codes.size(), want, dirs);
	return [=](Run &r) {
		if (use & 1) {
			fiftyoneDegreesMemoryReader m; memset(&m, 0x5A, sizeof m);
			if (attempt(r, "whole file", [&] { auto st = fiftyoneDegreesFileReadToByteArray(in->a.c_str(), &m); if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) CHECK(st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "refused with %d", (int)st); return st == FIFTYONE_DEGREES_STATUS_SUCCESS; })) { CHECK((size_t)m.length == in->bytes.size() && memcmp(m.startByte, in->bytes.data(), in->bytes.size()) == 0, "other bytes were read"); put(r, "read"); fiftyoneDegreesFree(m.startByte); }
			char temp[4096]; if (attempt(r, "temporary copy", [&] { return fiftyoneDegreesFileCreateTempFile(in->a.c_str(), in->dirs, 1, temp) == FIFTYONE_DEGREES_STATUS_SUCCESS; })) { CHECK(slurp(temp) == in->bytes, "the copy differs"); put(r, "copied"); fiftyoneDegreesFileDelete(temp); }
		}
		if (use & 2) for (int c : codes) {
			const char *m = nullptr; if (attempt(r, "status message", [&] { m = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)c, "some file"); return m != nullptr; })) { put(r, m); fiftyoneDegreesFree((void *)m); }
			FIFTYONE_DEGREES_EXCEPTION_CREATE exception->status = (fiftyoneDegreesStatusCode)c; exception->file = "f.c"; exception->func = "fn"; exception->line = 7;
			if (attempt(r, "exception message", [&] { m = fiftyoneDegreesExceptionGetMessage(exception); return m != nullptr; })) { put(r, m); fiftyoneDegreesFree((void *)m); }
			bool thrown = false; try { throw Fod::StatusCodeException((fiftyoneDegreesStatusCode)c, "file"); } catch (std::exception &e) { thrown = true; Str t = e.what(); if (alloc::S().failed == 0) put(r, t); else { put(r, "?"); r.reported = true; } } CHECK(thrown, "nothing thrown");
		}
		if (use & 4) {
			fiftyoneDegreesEvidenceIpAddress *a = nullptr; size_t n = 0; Str o;
			if (!attempt(r, "addresses", [&] { n = 0; o.clear(); a = parseAddresses(fiftyoneDegreesMalloc, ips.c_str()); for (auto *x = a; x; x = x->next) { n++; o += " " + std::to_string(x->type) + ":" + std::to_string(x->address[0]); } CHECK(n <= want, "more addresses than given"); if (n == want) return true; freeAddresses(fiftyoneDegreesFree, a); return false; })) put(r, "fewer");
			else { put(r, o); freeAddresses(fiftyoneDegreesFree, a); }
		}
		if (use & 8) {
			fiftyoneDegreesConfigBase c = { FIFTYONE_DEGREES_CONFIG_DEFAULT }; std::vector<Str> d; for (int i = 0; i < dirs; i++) d.push_back("/d" + std::to_string(i));
			{ Fod::ConfigBase w(&c); if (attempt(r, "directories", [&] { try { w.setTempDirectories(d); return true; } catch (std::exception &) { return false; } })) put(r, c.tempDirCount);
			CHECK(c.tempDirCount == 0 || c.tempDirs != nullptr, "%d directories nowhere", c.tempDirCount); }
			std::unique_ptr<Fod::RequiredPropertiesConfig> p, q; bool text = dirs & 1;
			if (attempt(r, "required properties", [&] { try { p.reset(text ? new Fod::RequiredPropertiesConfig("a,b|c") : new Fod::RequiredPropertiesConfig(&d)); return true; } catch (std::exception &) { return false; } })) {
				put(r, p->getCount());
				if (attempt(r, "copy of required properties", [&] { try { q.reset(new Fod::RequiredPropertiesConfig(*p)); return true; } catch (std::exception &) { return false; } })) put(r, q->getCount());
			}
		}
	};
}
struct Res { fiftyoneDegreesResourceHandle *handle; int *freed; };
void freeRes(void *p) { (*((Res *)p)->freed)++; free(p); }
Scenario resourceScenario(Src &s) {
	std::vector<int> ops; for (size_t k = (size_t)s.range(1, 12); k-- > 0;) ops.push_back((int)s.below(3)); log("resource manager, %zu operations", ops.size());
	return [ops](Run &r) {
		int freed = 0, made = 0; fiftyoneDegreesResourceManager m; Res *now = nullptr; auto make = [&] { Res *x = (Res *)malloc(sizeof *x); x->handle = nullptr; x->freed = &freed; made++; return x; };
		Res *x = make(); if (!attempt(r, "resource manager", [&] { fiftyoneDegreesResourceManagerInit(&m, x, &x->handle, freeRes); return x->handle != nullptr; })) { CHECK(freed == 0, "freed"); free(x); return; }
		now = x; std::vector<fiftyoneDegreesResourceHandle *> held;
		for (int o : ops) {
			if (o == 0) { auto *h = fiftyoneDegreesResourceHandleIncUse(&m); CHECK(h == now->handle, "another resource"); held.push_back(h); put(r, "use"); }
			else if (o == 1 && !held.empty()) { fiftyoneDegreesResourceHandleDecUse(held.back()); held.pop_back(); put(r, "done"); }
			else if (o == 2) { Res *n = make(); if (attempt(r, "replacement", [&] { fiftyoneDegreesResourceReplace(&m, n, &n->handle); return n->handle != nullptr; })) { now = n; put(r, "replaced"); } else { put(r, "refused"); free(n); made--; } }
		}
		fiftyoneDegreesResourceManagerFree(&m); for (auto *h : held) fiftyoneDegreesResourceHandleDecUse(h); CHECK(freed == made, "%d of %d resources were freed", freed, made);
	};
}
typedef Scenario (*Maker)(Src &);
struct Kind { const char *name; Maker make; };
const Kind kinds[] = { { "cache", cacheScenario }, { "collection", collectionScenario }, { "lookup", lookupScenario }, { "headers", headersScenario }, { "properties", propertiesScenario }, { "data set", dataSetScenario }, { "files", filesScenario }, { "resource", resourceScenario } };
void starve(Src &s, int kind) {
	alloc::begin(); finish = nullptr; int fds = coll::openFds(); size_t inside = 0;
	{
		Scenario run = kinds[kind].make(s); size_t live = alloc::live(); int open = coll::openFds(); bool cached = kind == 2;
		auto once = [&](int64_t at, bool all, bool retry) {
			Run r; r.retry = retry; alloc::arm(at, all); run(r); bool failed = alloc::S().failed > 0; int64_t asked = alloc::S().countdown; alloc::disarm();
			if (!cached) alloc::expectCount(live, "after everything was released");
			CHECK(coll::openFds() == open, "%d descriptors are open, %d before", coll::openFds(), open);
			return std::make_tuple(r, failed, asked);
		};
		auto base = once(-1, false, false); CHECK(!std::get<0>(base).reported, "refused with memory"); const Str want = std::get<0>(base).out;
		int64_t n = std::get<2>(base); log("%ld allocations", (long)n); size_t runs = 0, failures = 0, reported = 0;
		std::vector<std::tuple<int64_t, bool, bool>> plan;
		for (int64_t k = 0; k < n; k++) for (int v = 0; v < 4; v++) plan.push_back(std::make_tuple(k, v & 1, (v & 2) != 0));
		size_t limit = G().thorough ? 120 : 24; while (plan.size() > limit) { size_t i = s.below(plan.size()); plan[i] = plan.back(); plan.pop_back(); }
		for (auto &p : plan) {
			log("allocation %ld%s fails%s", (long)std::get<0>(p), std::get<1>(p) ? " and all later ones" : "", std::get<2>(p) ? ", then tried again" : "");
			auto got = once(std::get<0>(p), std::get<1>(p), std::get<2>(p)); Run &r = std::get<0>(got); runs++;
			if (std::get<1>(got)) failures++;
			if (r.reported) reported++;
			if (!r.reported) CHECK(r.out == want, "no failure was reported but the result is %s instead of %s", quote(r.out, 300).c_str(), quote(want, 300).c_str());
			else if (r.retry) CHECK(r.out == want || r.out.find('?') != Str::npos, "tried again the result is %s instead of %s", quote(r.out, 300).c_str(), quote(want, 300).c_str());
			if (cached && s.chance(3, 4)) continue; // a warm cache hides later failures
			auto again = once(-1, false, false); CHECK(std::get<0>(again).out == want, "afterwards, with memory, the result is %s instead of %s", quote(std::get<0>(again).out, 300).c_str(), quote(want, 300).c_str());
		}
		inside = reported; (void)runs; (void)failures;
		if (reported >= 3) nontrivial();
		run = nullptr; if (finish) finish(); finish = nullptr;
	}
	(void)inside; CHECK(coll::openFds() == fds, "%d descriptors at the end, %d at the start", coll::openFds(), fds); alloc::expectNone("at the end");
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "A source of names which could not give one for lack of memory tells its user so (the library's callback only says that there are no more).", "Allocations of the C++ run time and of stdio do not fail." };
	for (int k = 0; k < (int)(sizeof kinds / sizeof *kinds); k++) suite(kinds[k].name, [k](Src &s) { starve(s, k); }, k == 5 ? 700 : k == 2 ? 2500 : 4000, k == 5 ? 60000 : 400000, "at least three failures were reported");
	return runMain(argc, argv, o);
}
