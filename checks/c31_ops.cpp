// C31: runs a script of operations of the library in one build and records what came of it.
// Compiled once for each build; everything drawn is the same in all of them.
extern "C" {
#include "textfile.h"
}
#include "c31.hpp"
#include "model.hpp"
#include "probe.hpp"
extern "C" {
fiftyoneDegreesOverridePropertyArray *propsCreate(fiftyoneDegreesPropertiesAvailable *, bool, void *, fiftyoneDegreesOverridesFilterMethod) asm("fiftyoneDegreesOverridePropertiesCreate");
void propsFree(fiftyoneDegreesOverridePropertyArray *) asm("fiftyoneDegreesOverridePropertiesFree");
uint32_t extract(fiftyoneDegreesOverridePropertyArray *, fiftyoneDegreesOverrideValueArray *, fiftyoneDegreesEvidenceKeyValuePairArray *) asm("fiftyoneDegreesOverridesExtractFromEvidence");
fiftyoneDegreesString *getFirst(fiftyoneDegreesOverrideValueArray *, uint32_t, fiftyoneDegreesCollectionItem *) asm("fiftyoneDegreesOverrideValuesGetFirst");
void initComponents(fiftyoneDegreesCollection *, fiftyoneDegreesList *, uint32_t, fiftyoneDegreesException *) asm("fiftyoneDegreesComponentInitList");
const fiftyoneDegreesComponentKeyValuePair *getPair(fiftyoneDegreesComponent *, uint16_t, fiftyoneDegreesException *) asm("fiftyoneDegreesComponentGetKeyValuePair");
bool memoryAdvance(fiftyoneDegreesMemoryReader *, size_t) asm("fiftyoneDegreesMemoryAdvance");
}
namespace {
#ifdef FIFTYONE_DEGREES_EXCEPTIONS_DISABLED
const bool exceptions = false;
#define STATUS(e) -1
#else
const bool exceptions = true;
#define STATUS(e) ((int)(e)->status)
#endif
Str trace, statuses, labels; bool useful;
__attribute__((format(printf, 1, 2))) void T(const char *f, ...) { char b[4000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); if (trace.size() < 4000000) { trace += b; trace += '\n'; } }
// what only builds with exceptions have
void S(int status) { if (exceptions) statuses += std::to_string(status) + "\n"; }
void note(const char *l) { labels += l; labels += '\n'; }
Str hex(const void *p, size_t n) { if (n > 60) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = mix(h ^ ((const byte *)p)[i]); return std::to_string(n) + "#" + std::to_string(h); } Str r; char b[4]; for (size_t i = 0; i < n; i++) { snprintf(b, sizeof b, "%02x", ((const byte *)p)[i]); r += b; } return r; }
using coll::Item; using coll::Body; using coll::Source; using coll::How; typedef coll::C C;
Str text(fiftyoneDegreesString *t) { return t == nullptr ? "none" : hex(&t->value, (size_t)(t->size < 0 ? 0 : t->size)); }

void collections(Src &s) {
	alloc::begin(); Source src; std::vector<Body> bodies; size_t n = (size_t)s.range(1, 3);
	for (size_t i = 0; i < n; i++) switch (s.below(3)) {
	case 0: { uint32_t w = (uint32_t)s.range(4, 12), c = (uint32_t)s.small(0, 40); bool ints = s.chance(1, 2); Str b; if (ints) { w = 4; int32_t v = (int32_t)s.range(-50, 50); for (uint32_t k = 0; k < c; k++) { v += (int32_t)s.range(1, 3); coll::put32(b, (uint32_t)v); } } else b = s.bytes((size_t)w * c); bodies.push_back(coll::fixedData(w, c, s.chance(1, 2), b)); break; }
	case 1: { Body b = coll::variableData(readString); size_t c = (size_t)s.small(0, 40); for (size_t k = 0; k < c; k++) coll::addString(b, s.chars("abc", (size_t)s.small(0, 70))); bodies.push_back(b); break; }
	default: { Body b = coll::variableData(readProfile); size_t c = (size_t)s.small(0, 20); for (size_t k = 0; k < c; k++) { Str x(1, 'c'); coll::put32(x, (uint32_t)k); uint32_t v = (uint32_t)s.small(0, 30); coll::put32(x, v); x += s.bytes(v * 4); coll::add(b, x); } bodies.push_back(b); } }
	src.build(s, bodies); src.open((uint16_t)s.range(2, 4));
	std::vector<C *> cs; std::vector<How> hows;
	for (size_t i = 0; i < n; i++) { How h = coll::config(s, (uint32_t)bodies[i].items.size()); bool keepPosition = s.chance(1, 2); if (h.cached()) h.capacity += 4u * h.concurrency; hows.push_back(h); long after = 0; C *c = src.make(i, h, keepPosition ? &after : nullptr); log("collection %zu: %zu items of %u bytes, %s", i, bodies[i].items.size(), bodies[i].elementSize, h.text().c_str()); T("collection %zu %s at %ld", i, c ? "opened" : "refused", after); cs.push_back(c); if (c && bodies[i].fixed) T("element %u count %u", c->elementSize, fiftyoneDegreesCollectionGetCount(c)); }
	struct Held { size_t c, i; std::unique_ptr<Item> it; }; std::vector<Held> held; size_t good = 0, bad = 0;
	for (size_t k = (size_t)s.range(5, 60); k-- > 0;) {
		size_t i = (size_t)s.below(n); C *c = cs[i]; const Body &b = bodies[i]; int op = (int)s.weighted({ 6, 3, 2, 2, 2 });
		if (c == nullptr) continue;
		if (op == 0 && !b.items.empty()) {
			size_t j = (size_t)s.below(b.items.size()); std::unique_ptr<Item> it(new Item); coll::resetItem(it.get()); FIFTYONE_DEGREES_EXCEPTION_CREATE
			log("item %zu of %zu", j, i); void *p = c->get(c, b.items[j].key, it.get(), exception); T("get %zu.%zu %s", i, j, p ? hex(p, b.items[j].size).c_str() : "none"); S(STATUS(exception));
			if (p) { CHECK(it->data.ptr == p, "item without its data"); held.push_back({ i, j, std::move(it) }); good++; }
			if (held.size() > 3) { size_t x = (size_t)s.below(held.size()); T("held %s", hex(held[x].it->data.ptr, bodies[held[x].c].items[held[x].i].size).c_str()); coll::release(cs[held[x].c], held[x].it.get()); held.erase(held.begin() + (long)x); }
		} else if (op == 1) { // a key that is not there
			uint32_t key = b.fixed ? b.count + (uint32_t)(s.chance(1, 2) ? s.below(3) : s.below(UINT32_MAX - b.count)) : (uint32_t)b.body.size() + (uint32_t)s.below(5);
			Item it; coll::resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE log("key %u of %zu", key, i); void *p = c->get(c, key, &it, exception); T("key %s", p ? "found" : "refused"); statuses += Str("key ") + (p ? "found " : "refused ") + (FIFTYONE_DEGREES_EXCEPTION_OKAY ? "without status\n" : "with status\n"); bad++; if (p) coll::release(c, &it);
		} else if (op == 2 && b.fixed && b.elementSize == 4 && b.count > 0) { FIFTYONE_DEGREES_EXCEPTION_CREATE uint32_t x = (uint32_t)s.below(b.count); T("integer %d", fiftyoneDegreesCollectionGetInteger32(c, x, exception)); S(STATUS(exception)); }
		else if (op == 3 && b.fixed && b.elementSize == 4 && b.count > 0) {
			int32_t want = (int32_t)s.range(-60, 170); if (s.chance(1, 2)) want = (int32_t)coll::at32(b.body, 4 * (size_t)s.below(b.count)); uint32_t lo = (uint32_t)s.below(b.count), hi = lo + (uint32_t)s.below(b.count - lo); Item it; coll::resetItem(&it); FIFTYONE_DEGREES_EXCEPTION_CREATE
			struct Q { int32_t v; } q = { want }; struct F { static int cmp(void *st, Item *i, long, fiftyoneDegreesException *) { int32_t v; memcpy(&v, i->data.ptr, 4); int32_t w = ((Q *)st)->v; return v < w ? -1 : v > w; } };
			long r = fiftyoneDegreesCollectionBinarySearch(c, &it, lo, hi, &q, F::cmp, exception); log("search %d in %u..%u", want, lo, hi); T("search %ld", r); S(STATUS(exception)); if (r >= 0) coll::release(c, &it); good++;
		} else if (!held.empty()) { size_t x = (size_t)s.below(held.size()); T("held %s", hex(held[x].it->data.ptr, bodies[held[x].c].items[held[x].i].size).c_str()); coll::release(cs[held[x].c], held[x].it.get()); held.erase(held.begin() + (long)x); }
	}
	for (auto &h : held) { T("held %s", hex(h.it->data.ptr, bodies[h.c].items[h.i].size).c_str()); coll::release(cs[h.c], h.it.get()); }
	coll::checkPool(src, "at the end");
	for (auto *c : cs) if (c) c->freeCollection(c);
	src.close(); T("left %zu", alloc::live()); useful = good > 4; note("collections"); if (bad) note("key refused");
}

struct Iter { C *c; size_t stopAt; std::vector<Str> seen; bool release; size_t bytes; };
bool onItem(void *st, Item *i) { Iter *x = (Iter *)st; x->seen.push_back(hex(i->data.ptr, x->bytes)); if (x->release) coll::release(x->c, i); return x->seen.size() < x->stopAt; }
void lookups(Src &s) {
	using namespace model;
	alloc::begin(); Set d = model::make(s); Opened o; o.open(s, d); auto *ps = o.c[PROPERTIES], *ss = o.c[STRINGS], *vs = o.c[VALUES], *prs = o.c[PROFILES], *os = o.c[OFFSETS]; size_t n = (size_t)s.range(4, 20), found = 0;
	log("%zu properties %zu values %zu profiles %zu components, strings %s, values %s", d.props.size(), d.values.size(), d.profs.size(), d.comps.size(), o.how[STRINGS].text().c_str(), o.how[VALUES].text().c_str());
	auto str = [&](fiftyoneDegreesString *t, Item &it, const char *w) { T("%s %s", w, text(t).c_str()); if (t) coll::release(ss, &it); };
	while (n-- > 0) {
		FIFTYONE_DEGREES_EXCEPTION_CREATE Item it, st; resetItem(&it); resetItem(&st);
		switch (s.below(8)) {
		case 0: { Str q = !d.props.empty() && s.chance(2, 3) ? s.pick(d.props).name : word(s, 8); log("property %s", quote(q).c_str()); auto *p = fiftyoneDegreesPropertyGetByName(ps, ss, q.c_str(), &it, exception); T("property %s", p ? hex(p, sizeof *p).c_str() : "none"); if (p) { str(fiftyoneDegreesPropertyGetName(ss, p, &st, exception), st, "name"); str(fiftyoneDegreesPropertyGetCategory(ss, p, &st, exception), st, "category"); coll::release(ps, &it); found++; } break; }
		case 1: { if (d.props.empty()) break; uint32_t i = (uint32_t)s.below(d.props.size()); auto *p = fiftyoneDegreesPropertyGet(ps, i, &it, exception); T("property %s type %d", p ? hex(p, sizeof *p).c_str() : "none", (int)fiftyoneDegreesPropertyGetValueType(ps, i, exception)); if (p) { str(fiftyoneDegreesPropertyGetDescription(ss, p, &st, exception), st, "description"); str(fiftyoneDegreesPropertyGetUrl(ss, p, &st, exception), st, "url"); coll::release(ps, &it); } break; }
		case 2: { if (d.props.empty()) break; size_t i = (size_t)s.below(d.props.size()); auto &m = d.props[i]; Str q = m.first != UINT32_MAX && s.chance(2, 3) ? d.values[s.range(m.first, m.last)].text : s.pick(std::vector<Str>{ "1.5,2.5", "10.1.1.1", "a", "::1", "zz", "" }); auto *p = fiftyoneDegreesPropertyGet(ps, (uint32_t)i, &it, exception); if (!p) { T("no property"); break; }
			log("value %s of %zu", quote(q).c_str(), i); long r = fiftyoneDegreesValueGetIndexByName(vs, ss, p, q.c_str(), exception); T("value %ld", r); auto *v = fiftyoneDegreesValueGetByName(vs, ss, p, q.c_str(), &st, exception); T("value %s", v ? hex(v, sizeof *v).c_str() : "none"); if (v) { coll::release(vs, &st); found++; } coll::release(ps, &it); break; }
		case 3: { if (d.values.empty()) break; auto *v = fiftyoneDegreesValueGet(vs, (uint32_t)s.below(d.values.size()), &it, exception); T("value %s", v ? hex(v, sizeof *v).c_str() : "none"); if (v) { str(fiftyoneDegreesValueGetName(ss, v, &st, exception), st, "name"); str(fiftyoneDegreesValueGetDescription(ss, v, &st, exception), st, "description"); str(fiftyoneDegreesValueGetUrl(ss, v, &st, exception), st, "url"); coll::release(vs, &it); } break; }
		case 4: { uint32_t id = !d.profs.empty() && s.chance(2, 3) ? s.pick(d.profs).id : (uint32_t)s.small(1, 60); log("profile %u", id); auto *p = fiftyoneDegreesProfileGetByProfileId(os, prs, id, &it, exception); T("profile %s", p ? hex(p, sizeof *p + p->valueCount * 4).c_str() : "none"); if (p) { coll::release(prs, &it); found++; } break; }
		case 5: { if (d.profs.empty() || d.props.empty()) break; auto *p = fiftyoneDegreesProfileGetByIndex(os, prs, (uint32_t)s.below(d.profs.size()), &it, exception); size_t pi = (size_t)s.below(d.props.size()); Iter x{ vs, s.chance(1, 4) ? (size_t)s.range(1, 3) : SIZE_MAX, {}, true, sizeof(fiftyoneDegreesValue) }; if (!p) { T("no profile"); break; }
			Bytes pb = d.body[PROPERTIES].body.substr(pi * sizeof(fiftyoneDegreesProperty), sizeof(fiftyoneDegreesProperty)); uint32_t c = fiftyoneDegreesProfileIterateValuesForProperty(vs, p, (fiftyoneDegreesProperty *)&pb[0], &x, onItem, exception); T("values of a profile %u", c); for (auto &y : x.seen) T(" %s", y.c_str()); if (c > 1) found++; coll::release(prs, &it); break; }
		case 6: { Str pn = !d.props.empty() && !s.chance(1, 6) ? s.pick(d.props).name : word(s, 5), vn = !d.values.empty() && s.chance(3, 4) ? s.pick(d.values).text : word(s, 4); Iter x{ prs, s.chance(1, 5) ? (size_t)s.range(1, 3) : SIZE_MAX, {}, false, sizeof(fiftyoneDegreesProfile) }; uint32_t c = fiftyoneDegreesProfileIterateProfilesForPropertyAndValue(ss, ps, vs, prs, os, pn.c_str(), vn.c_str(), &x, onItem, exception); T("profiles with a value %u", c); for (auto &y : x.seen) T(" %s", y.c_str()); break; }
		default: { fiftyoneDegreesList l; uint32_t more = s.chance(1, 4) ? (uint32_t)s.range(1, 3) : 0; log("components and %u more", more); initComponents(o.c[COMPONENTS], &l, (uint32_t)d.comps.size() + more, exception); S(more > 0 ? STATUS(exception) != 0 : STATUS(exception)); FIFTYONE_DEGREES_EXCEPTION_CLEAR T("components %u", l.count); for (uint32_t i = 0; i < l.count && i < d.comps.size(); i++) { auto *c = (fiftyoneDegreesComponent *)l.items[i].data.ptr; Item ci; resetItem(&ci); T("component %u pairs %u", c->componentId, c->keyValuesCount); str(fiftyoneDegreesComponentGetName(ss, c, &ci, exception), ci, "name"); if (!d.profs.empty()) T("default %u", fiftyoneDegreesComponentGetDefaultProfileId(prs, c, exception)); for (uint16_t k = 0; k < c->keyValuesCount; k++) T("pair %s", hex(getPair(c, k, exception), 8).c_str()); } fiftyoneDegreesListFree(&l); } }
		S(STATUS(exception));
	}
	o.close(d); T("left %zu", alloc::live()); useful = found > 2; note("data set lookups");
}

struct Load { bool wide, fail = false; uint64_t calls = 0; };
void loadOne(const void *st, fiftyoneDegreesData *data, const void *key, fiftyoneDegreesException *exception) {
	Load *l = (Load *)st; l->calls++; int64_t k; if (l->wide) memcpy(&k, key, 8); else { int32_t x; memcpy(&x, key, 4); k = x; }
	if (l->fail) { l->fail = false; FIFTYONE_DEGREES_EXCEPTION_SET(FIFTYONE_DEGREES_STATUS_COLLECTION_FILE_READ_FAIL); return; }
	uint64_t h = mix((uint64_t)k); size_t n = 1 + h % 30; byte *p = (byte *)fiftyoneDegreesDataMalloc(data, n); if (!p) fail("no memory in the loader"); data->used = (uint32_t)n; for (size_t i = 0; i < n; i++) p[i] = (byte)mix(h + i);
}
void cache(Src &s) {
	alloc::begin(); Load l; l.wide = s.chance(1, 2); uint16_t conc = (uint16_t)s.range(1, 5); uint32_t cap = (uint32_t)(conc * conc + s.small(0, 12)); if (s.chance(1, 30)) cap = (uint32_t)s.range(0, conc * conc - 1); log("cache of %u for %u", cap, conc);
	auto *c = fiftyoneDegreesCacheCreate(cap, conc, loadOne, l.wide ? fiftyoneDegreesCacheHash64 : fiftyoneDegreesCacheHash32, &l); T("cache %s", c ? "made" : "refused"); note("cache"); if (!c) return; T("capacity %d", (int)c->capacity);
	size_t nk = (size_t)s.range(1, (int64_t)cap * 2 + 4); int64_t base = s.range(-9, 9), step = s.chance(1, 2) ? 1 : conc; std::vector<fiftyoneDegreesCacheNode *> held; size_t gets = 0;
	for (size_t k = (size_t)s.range(5, 120); k-- > 0;) if (held.empty() || s.chance(3, 5)) {
		int64_t key = base + (int64_t)s.below(nk) * step; if (l.wide && s.chance(1, 6)) key += (int64_t)1 << 33; int32_t k32 = (int32_t)key; bool fails = s.chance(1, 15); if (fails && exceptions) l.fail = true; if (fails && !exceptions) break;
		// a failing load changes the cache in builds with exceptions only, so it ends the comparable part
		FIFTYONE_DEGREES_EXCEPTION_CREATE auto *nd = fiftyoneDegreesCacheGet(c, l.wide ? (void *)&key : (void *)&k32, exception); log("get %" PRId64 "%s", key, fails ? " failing" : "");
		bool failed = fails && !l.fail; l.fail = false; Str r = nd ? hex(nd->data.ptr, nd->data.used) : "none"; gets++;
		if (fails) { statuses += (failed ? "failed " : "was there ") + r + " " + std::to_string(STATUS(exception)) + "\n"; if (nd) fiftyoneDegreesCacheRelease(nd); statuses += "loads " + std::to_string(l.calls) + "\n"; break; }
		T("get %s loads %" PRIu64, r.c_str(), l.calls); S(STATUS(exception)); if (nd) held.push_back(nd);
	} else { size_t x = (size_t)s.below(held.size()); T("held %s", hex(held[x]->data.ptr, held[x]->data.used).c_str()); fiftyoneDegreesCacheRelease(held[x]); held.erase(held.begin() + (long)x); }
	for (auto *h : held) fiftyoneDegreesCacheRelease(h);
	fiftyoneDegreesCacheFree(c); T("left %zu", alloc::live()); useful = gets > 10;
}

struct Res { int id; fiftyoneDegreesResourceHandle *handle; }; std::vector<int> freed;
void freeRes(void *p) { freed.push_back(((Res *)p)->id); free(p); }
int madeCount; void *madeBy;
void *makeOne(fiftyoneDegreesPool *, void *, fiftyoneDegreesException *) { int *r = (int *)malloc(sizeof(int)); *r = madeCount++; return r; }
void dropOne(fiftyoneDegreesPool *, void *r) { freed.push_back(*(int *)r); free(r); }
void sharing(Src &s) { // pools and resource managers
	alloc::begin(); freed.clear(); madeCount = 0; note("pools and managers");
	{ fiftyoneDegreesPool p; memset(&p, 0x55, sizeof p); uint16_t n = (uint16_t)s.range(1, 8); FIFTYONE_DEGREES_EXCEPTION_CREATE log("pool of %u", n); bool ok = fiftyoneDegreesPoolInit(&p, n, nullptr, makeOne, dropOne, exception) != nullptr; T("pool %d %d", ok, madeCount); S(STATUS(exception)); std::vector<fiftyoneDegreesPoolItem *> out; std::set<void *> seen;
	for (size_t k = (size_t)s.range(0, 50); k-- > 0;) if (out.empty() || s.chance(3, 5)) { auto *i = fiftyoneDegreesPoolItemGet(&p, exception); T("take %s", i == nullptr ? "none" : seen.insert(i->resource).second ? "one" : "twice"); S(STATUS(exception)); if (i) out.push_back(i); else if (exceptions) { FIFTYONE_DEGREES_EXCEPTION_CLEAR } } else { size_t x = (size_t)s.below(out.size()); seen.erase(out[x]->resource); fiftyoneDegreesPoolItemRelease(out[x]); out.erase(out.begin() + (long)x); T("give"); }
	fiftyoneDegreesPoolFree(&p); std::sort(freed.begin(), freed.end()); for (int f : freed) T("freed %d", f); freed.clear(); }
	fiftyoneDegreesResourceManager *m = (fiftyoneDegreesResourceManager *)malloc(sizeof *m); int next = 0; auto fresh = [&] { Res *r = (Res *)malloc(sizeof *r); r->id = next++; r->handle = nullptr; return r; }; Res *active = fresh(); fiftyoneDegreesResourceManagerInit(m, active, &active->handle, freeRes); std::vector<fiftyoneDegreesResourceHandle *> held; size_t replaced = 0;
	auto show = [&] { for (int f : freed) T("freed %d", f); freed.clear(); T("use %d of %d, left %zu", fiftyoneDegreesResourceHandleGetUse(active->handle), active->id, alloc::live()); };
	for (size_t k = (size_t)s.range(1, 40); k-- > 0;) switch (s.weighted({ 4, 3, 2 })) {
	case 0: { auto *h = fiftyoneDegreesResourceHandleIncUse(m); T("acquire %d", ((Res *)h->resource)->id); held.push_back(h); show(); break; }
	case 1: if (!held.empty()) { size_t x = (size_t)s.below(held.size()); auto *h = held[x]; T("release %d used by %d", ((Res *)h->resource)->id, fiftyoneDegreesResourceHandleGetUse(h)); held.erase(held.begin() + (long)x); fiftyoneDegreesResourceHandleDecUse(h); show(); } break;
	default: { active = fresh(); fiftyoneDegreesResourceReplace(m, active, &active->handle); T("replace %d", active->id); replaced++; show(); } }
	fiftyoneDegreesResourceManagerFree(m); for (int f : freed) T("freed %d", f); freed.clear(); for (auto *h : held) { fiftyoneDegreesResourceHandleDecUse(h); for (int f : freed) T("freed %d", f); freed.clear(); }
	free(m); T("left %zu", alloc::live()); useful = replaced > 1;
}

// Headers, evidence, required properties and overrides, with names in a collection of strings.
struct Offered { C *strings; std::vector<uint32_t> offsets; size_t properties; std::vector<std::vector<uint32_t>> evidence; };
fiftyoneDegreesString *offeredProperty(void *st, uint32_t i, Item *item) { Offered *o = (Offered *)st; if (i >= o->properties) return nullptr; FIFTYONE_DEGREES_EXCEPTION_CREATE return fiftyoneDegreesStringGet(o->strings, o->offsets[i], item, exception); }
uint32_t offeredEvidence(void *st, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) { Offered *o = (Offered *)st; auto &v = o->evidence[p->propertyIndex]; if (e) for (size_t i = 0; i < v.size(); i++) e->items[i] = v[i]; return (uint32_t)v.size(); }
long offeredHeader(void *st, uint32_t i, Item *item) { Offered *o = (Offered *)st; if (o->properties + i >= o->offsets.size()) return -1; FIFTYONE_DEGREES_EXCEPTION_CREATE fiftyoneDegreesStringGet(o->strings, o->offsets[o->properties + i], item, exception); return (long)i * 7 + 3; }
bool tracePair(void *st, fiftyoneDegreesEvidenceKeyValuePair *p) { T(" %d %s=%s", (int)p->prefix, p->field, (const char *)p->parsedValue); return --*(size_t *)st > 0; }
void traceId(void *, uint32_t id) { T(" id %u", id); }
bool isHttp(fiftyoneDegreesHeaders *h, const Str &f, fiftyoneDegreesEvidencePrefix p) { fiftyoneDegreesEvidenceKeyValuePair x; memset(&x, 0, sizeof x); x.field = f.c_str(); x.prefix = p; return fiftyoneDegreesHeadersIsHttp(h, &x); }
bool everySecond(void *, uint32_t i) { return i % 3 != 1; }
void request(Src &s) {
	alloc::begin(); note("request"); static const char *words[] = { "user-agent", "Sec-CH-UA", "Host", "a", "B", "ab", "SetHeaderX", "IsMobile", "ScreenPixels", "ScreenPixelsJavaScript", "HTTP" };
	static const fiftyoneDegreesEvidencePrefix prefixes[] = { FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING, FIFTYONE_DEGREES_EVIDENCE_QUERY, FIFTYONE_DEGREES_EVIDENCE_COOKIE, FIFTYONE_DEGREES_EVIDENCE_SERVER };
	auto word = [&] { return s.chance(1, 4) ? s.chars("abX-", (size_t)s.range(1, 4)) : Str(words[s.below(11)]); };
	std::vector<Str> names; std::set<Str> seen; for (size_t i = (size_t)s.range(1, 8); i-- > 0;) { Str w = word(); if (seen.insert(low(w)).second) names.push_back(w); } size_t properties = names.size();
	std::vector<Str> headers; for (size_t i = (size_t)s.small(0, 7); i-- > 0;) { Str w = word(); for (size_t k = (size_t)s.below(3); k-- > 0;) w += "\x1F" + word(); headers.push_back(w); }
	std::vector<Body> bodies(1, coll::variableData(readString)); Offered o; for (auto &n : names) o.offsets.push_back(coll::addString(bodies[0], n)); for (auto &n : headers) o.offsets.push_back(coll::addString(bodies[0], n)); o.properties = properties; for (size_t i = 0; i < properties; i++) { o.evidence.push_back({}); for (size_t k = (size_t)s.below(4); k-- > 0;) o.evidence[i].push_back((uint32_t)s.below(properties)); }
	Source src; src.build(s, bodies); src.open((uint16_t)s.range(2, 4)); How h = coll::config(s, (uint32_t)o.offsets.size()); if (h.cached()) { h.capacity = std::max<uint32_t>(40u, h.concurrency) * h.concurrency; } o.strings = src.make(0, h); T("strings %d", o.strings != nullptr); log("%zu properties %zu headers in %s", properties, headers.size(), h.text().c_str());
	fiftyoneDegreesHeaders *hs = fiftyoneDegreesHeadersCreate(s.chance(1, 3), &o, offeredHeader); T("headers %u pseudo %u", hs ? hs->count : 0, hs ? hs->pseudoHeadersCount : 0);
	for (uint32_t i = 0; hs && i < hs->count; i++) { T(" %s %ld %d segments %u", hs->items[i].name, (long)hs->items[i].uniqueId, (int)hs->items[i].isDataSet, hs->items[i].segments ? hs->items[i].segments->count : 0); }
	for (int k = 0; k < 4 && hs; k++) { Str w = word(); T("index %d http %d", fiftyoneDegreesHeaderGetIndex(hs, w.c_str(), w.size()), isHttp(hs, w, prefixes[s.below(4)])); }
	fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault; Str want; std::vector<const char *> array; int kind = (int)s.below(3); if (kind == 1) { for (size_t i = (size_t)s.range(1, 5); i-- > 0;) want += (s.chance(3, 4) ? s.pick(names) : word()) + ","; req.string = want.c_str(); } else if (kind == 2) { for (auto &n : names) if (s.chance(1, 2)) array.push_back(n.c_str()); req.array = array.data(); req.count = (int)array.size(); }
	auto *av = fiftyoneDegreesPropertiesCreate(&req, &o, offeredProperty, offeredEvidence); T("available %u", av ? av->count : 0);
	for (uint32_t i = 0; av && i < av->count; i++) { T(" %u %s", av->items[i].propertyIndex, text((fiftyoneDegreesString *)av->items[i].name.data.ptr).c_str()); for (uint32_t k = 0; k < av->items[i].evidenceProperties->count; k++) T("  %u", av->items[i].evidenceProperties->items[k]); }
	if (av) { for (int k = 0; k < 3; k++) { Str w = word(); T("required %d property %d", fiftyoneDegreesPropertiesGetRequiredPropertyIndexFromName(av, w.c_str()), fiftyoneDegreesPropertiesGetPropertyIndexFromName(av, w.c_str())); } T("set header %d", (int)fiftyoneDegreesPropertiesIsSetHeaderAvailable(av)); }
	size_t pairs = (size_t)s.small(0, 12); std::vector<std::pair<Str, Str>> keep; keep.reserve(pairs); auto *e = fiftyoneDegreesEvidenceCreate((uint32_t)pairs); std::vector<Str> parts; for (auto &x : headers) { parts.push_back(x); Str c; for (char ch : x + "\x1F") if (ch == '\x1F') { parts.push_back(c); c.clear(); } else c += ch; }
	for (size_t i = 0; i < pairs; i++) { Str f = !parts.empty() && s.chance(1, 2) ? s.pick(parts) : s.chance(1, 2) ? s.pick(names) : s.chance(1, 4) ? Str("51D_ProfileIds") : word(); if (s.chance(1, 6)) f = "51D_" + f; keep.push_back({ f, s.chance(1, 4) ? std::to_string(s.below(1u << 30)) + "-" + std::to_string(s.below(99)) : s.chars("abc 1", (size_t)s.small(0, 20)) }); auto p = prefixes[s.below(4)]; log("%d %s=%s", (int)p, quote(f).c_str(), quote(keep.back().second).c_str()); fiftyoneDegreesEvidenceAddString(e, p, keep.back().first.c_str(), keep.back().second.c_str()); }
	size_t size = (size_t)s.range(4, 60); auto *pseudo = fiftyoneDegreesEvidenceCreate(hs ? hs->pseudoHeadersCount : 0); std::vector<char *> buffers; for (uint32_t i = 0; hs && i < hs->pseudoHeadersCount; i++) { char *b = (char *)calloc(1, size); buffers.push_back(b); pseudo->items[i].originalValue = b; }
	e->pseudoEvidence = pseudo; fiftyoneDegreesEvidencePrefix order[2] = { prefixes[s.below(4)], prefixes[s.below(4)] }; { FIFTYONE_DEGREES_EXCEPTION_CREATE if (hs) fiftyoneDegreesPseudoHeadersAddEvidence(e, hs, size, order, 2, exception); S(STATUS(exception)); }
	size_t stop = s.chance(1, 3) ? (size_t)s.range(1, 6) : SIZE_MAX; int mask = s.chance(1, 2) ? 255 : (int)s.below(256); T("evidence"); T("%u iterated", fiftyoneDegreesEvidenceIterate(e, mask, &stop, tracePair)); if (hs) fiftyoneDegreesPseudoHeadersRemoveEvidence(e, size);
	if (av) { auto *props = propsCreate(av, s.chance(1, 2), nullptr, everySecond); auto *vals = fiftyoneDegreesOverrideValuesCreate((uint32_t)s.below(5)); T("overridable %u", props ? props->count : 0); e->pseudoEvidence = nullptr; if (props) T("overridden %u", extract(props, vals, e)); for (uint32_t i = 0; i < av->count; i++) { Item it; memset(&it, 0, sizeof it); auto *t = getFirst(vals, i, &it); T(" %u %s", i, text(t).c_str()); if (t && it.collection && it.collection->release) it.collection->release(&it); } T("profiles"); fiftyoneDegreesOverrideProfileIds(e, nullptr, traceId); propsFree(props); fiftyoneDegreesOverrideValuesFree(vals); }
	e->pseudoEvidence = nullptr; fiftyoneDegreesEvidenceFree(e); fiftyoneDegreesEvidenceFree(pseudo); for (auto *b : buffers) free(b);
	if (av) fiftyoneDegreesPropertiesFree(av); if (hs) fiftyoneDegreesHeadersFree(hs); coll::checkPool(src, "at the end"); if (o.strings) o.strings->freeCollection(o.strings); src.close(); T("left %zu", alloc::live()); useful = !headers.empty() && pairs > 1;
}

void onLine(const char *l, void *) { T(" line %s", l); }
void onDoc(fiftyoneDegreesKeyValuePair *p, uint16_t n, void *) { T(" document"); for (uint16_t i = 0; i < n; i++) T("  %s=%s", p[i].key, p[i].value); }
struct Walk { uint32_t k; fiftyoneDegreesTreeNode node; };
void texts(Src &s) { // strings, addresses, numbers, messages and text files
	alloc::begin(); note("texts"); size_t n = (size_t)s.range(2, 12); useful = n > 4; Str path = G().scratch + "/c31_" + std::to_string(getpid());
	while (n-- > 0) switch (s.below(9)) {
	case 0: { Str a = s.chars("abAB\xc3", (size_t)s.below(6)), b = s.chance(1, 3) ? a : s.chars("abAB\xc3", (size_t)s.below(6)); auto sg = [](int x) { return x < 0 ? -1 : x > 0; }; T("compare %d %d", sg(fiftyoneDegreesStringCompare(a.c_str(), b.c_str())), sg(fiftyoneDegreesStringCompareLength(a.c_str(), b.c_str(), std::min(a.size(), b.size())))); Str w = s.chars("abAB", (size_t)s.range(1, 2)); const char *p = fiftyoneDegreesStringSubString(a.c_str(), w.c_str()); T("in %ld", p ? (long)(p - a.c_str()) : -1L); break; }
	case 1: { Str t; if (s.chance(1, 2)) { for (int i = 0; i < 4; i++) t += (i ? "." : "") + std::to_string(s.below(i ? 256 : 300)); } else t = s.chars("0123456789abcdef:::.", (size_t)s.small(1, 30)); auto *r = fiftyoneDegreesIpParseAddress(fiftyoneDegreesMalloc, t.c_str(), t.c_str() + t.size()); log("address %s", quote(t).c_str()); T("address %d %s", r ? (int)r->type : -1, r && r->type != 0 && r->type != FIFTYONE_DEGREES_EVIDENCE_IP_TYPE_INVALID ? hex(r->address, (size_t)(r->current - r->address)).c_str() : "none"); if (r) fiftyoneDegreesIpFreeAddresses(fiftyoneDegreesFree, r); break; }
	case 2: { uint32_t bits = (uint32_t)s.below(1ull << 32); float f; memcpy(&f, &bits, 4); auto x = fiftyoneDegreesNativeToFloat(f); float g = fiftyoneDegreesFloatToNative(x); if (f != f) T("nan %d", g != g); else T("float %s %s", hex(&x, sizeof x).c_str(), hex(&g, 4).c_str()); break; }
	case 3: { int c = (int)s.range(-2, 40); const char *m = fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)c, "some.file"); T("status %d %s", c, m ? m : "none"); fiftyoneDegreesFree((void *)m); break; }
	case 4: { Str c = s.chars("ab\n\r", (size_t)s.small(0, 60)); size_t len = (size_t)s.range(c.size() + 1, c.size() + 9); int limit = (int)s.range(-1, 5); spit(path, c); std::vector<char> b(len); T("lines"); fiftyoneDegreesTextFileIterateWithLimit(path.c_str(), b.data(), (int)len, limit, nullptr, onLine); unlink(path.c_str()); break; }
	case 5: { Str c; for (size_t k = (size_t)s.small(0, 12); k-- > 0;) { if (s.chance(1, 3)) c += "---\n"; else c += s.chars("ab", 2) + ": " + (s.chance(1, 3) ? "'" + s.chars("xy", 2) + "'" : s.chars("xyz", (size_t)s.below(5))) + "\n"; } spit(path, c); char key[3][8], val[3][8]; fiftyoneDegreesKeyValuePair p[3]; for (int i = 0; i < 3; i++) p[i] = { key[i], 8, val[i], 8 }; std::vector<char> b((size_t)s.range(1, 40)); T("yaml"); auto st = fiftyoneDegreesYamlFileIterateWithLimit(path.c_str(), b.data(), b.size(), p, 3, (int)s.range(-1, 4), nullptr, onDoc); T("yaml %d", (int)st); unlink(path.c_str()); break; }
	case 6: { Str c = s.bytes((size_t)s.small(1, 300)); spit(path, c); fiftyoneDegreesMemoryReader r; auto st = fiftyoneDegreesFileReadToByteArray(s.chance(1, 8) ? "/nonexistent/file" : path.c_str(), &r); T("read %d", (int)st); if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { T(" %s", hex(r.startByte, (size_t)r.length).c_str()); fiftyoneDegreesFree(r.startByte); } T("size %ld", fiftyoneDegreesFileGetSize(path.c_str())); Str to = path + ".copy"; st = fiftyoneDegreesFileCopy(path.c_str(), to.c_str()); T("copy %d %s", (int)st, slurp(to) == c ? "same" : "other"); T("delete %d %d", (int)fiftyoneDegreesFileDelete(to.c_str()), (int)fiftyoneDegreesFileDelete(to.c_str())); Str base = s.chars("ab/.", (size_t)s.below(12)); T("name %s", fiftyoneDegreesFileGetFileName(base.c_str())); unlink(path.c_str()); break; }
	case 7: { fiftyoneDegreesTreeRoot root; fiftyoneDegreesTreeRootInit(&root); std::vector<std::unique_ptr<Walk>> ns; std::set<int64_t> in; for (size_t k = (size_t)s.small(0, 30); k-- > 0;) { int64_t key = s.range(-15, 15); auto *f = fiftyoneDegreesTreeFind(&root, key); T("tree %" PRId64 " %d", key, f != nullptr); if (!f) { ns.emplace_back(new Walk); fiftyoneDegreesTreeNodeInit(&ns.back()->node, &root); ns.back()->node.key = key; fiftyoneDegreesTreeInsert(&ns.back()->node); } else if (s.chance(1, 2)) { fiftyoneDegreesTreeDelete(f); } T("count %u", fiftyoneDegreesTreeCount(&root)); } break; }
	default: { fiftyoneDegreesMemoryTrackingReset(); std::vector<void *> b; size_t peak = 0; (void)peak; for (size_t k = (size_t)s.small(0, 20); k-- > 0;) if (b.empty() || s.chance(2, 3)) b.push_back(fiftyoneDegreesMemoryTrackingMalloc((size_t)s.small(0, 400))); else { size_t x = (size_t)s.below(b.size()); fiftyoneDegreesMemoryTrackingFree(b[x]); b.erase(b.begin() + (long)x); } T("tracked %zu max %zu", fiftyoneDegreesMemoryTrackingGetAllocated(), fiftyoneDegreesMemoryTrackingGetMax()); for (auto *p : b) fiftyoneDegreesMemoryTrackingFree(p); T("tracked %zu max %zu", fiftyoneDegreesMemoryTrackingGetAllocated(), fiftyoneDegreesMemoryTrackingGetMax());
		byte m[64]; fiftyoneDegreesMemoryReader r; r.startByte = r.current = m; r.length = 64; r.lastByte = m + 64; for (int k = 0; k < 5; k++) { bool ok = memoryAdvance(&r, (size_t)s.below(30)); T("advance %d %ld", ok, (long)(r.current - m)); } fiftyoneDegreesMemoryTrackingReset(); }
	}
	T("left %zu", alloc::live());
}

void show(DataSetProbe *d, const char *when) {
	T("%s: number %u", when, d->serial); FIFTYONE_DEGREES_EXCEPTION_CREATE
	for (uint32_t i = 0; i < d->properties + d->headers; i++) { Item it; coll::resetItem(&it); auto *t = stringAt(d, i, &it, exception); T(" %s", text(t).c_str()); if (t) coll::release(d->strings, &it); }
	T(" available %u headers %u", d->b.b.available->count, d->b.b.uniqueHeaders->count); for (uint32_t i = 0; i < d->b.b.available->count; i++) T("  %u evidence %u", d->b.b.available->items[i].propertyIndex, d->b.b.available->items[i].evidenceProperties->count);
	if (d->b.b.overridable) for (uint32_t i = 0; i < d->b.b.overridable->count; i++) T("  may override %u", d->b.b.overridable->items[i].requiredPropertyIndex);
}
void sets(Src &s) {
	alloc::begin(); note("data sets"); Str root = G().scratch + "/r" + std::to_string(getpid()); clear(root); mkdir(root.c_str(), 0700); mkdir((root + "/t").c_str(), 0700); Str td = root + "/t"; const char *dirs[] = { td.c_str() };
	ProbeConfig c; memset(&c, 0, sizeof c); c.b.allInMemory = s.chance(1, 3); c.b.usesUpperPrefixedHeaders = s.chance(1, 3); c.b.freeData = s.chance(1, 2); c.b.useTempFile = s.chance(1, 2); c.b.tempDirs = dirs; c.b.tempDirCount = 1; c.concurrency = (uint16_t)s.range(2, 5); c.overridable = s.chance(1, 2);
	auto storage = [&](fiftyoneDegreesCollectionConfig &x) { x.loaded = s.chance(1, 3) ? (uint32_t)s.below(8) : 0; if (s.chance(1, 2)) { x.concurrency = 4; x.capacity = s.chance(1, 4) ? 3000 : 40 + (uint32_t)s.below(9); } }; storage(c.strings); storage(c.numbers); hundreds = (c.strings.capacity == 0 || c.strings.capacity >= 3000) && (c.numbers.capacity == 0 || c.numbers.capacity >= 3000); compared = -1;
	log("%s%s%s", c.b.allInMemory ? "in memory" : "streamed", c.b.useTempFile ? ", temporary copy" : "", c.b.freeData ? ", data freed" : "");
	uint32_t serial = 0, files = 0; Content base = ::make(s, ++serial, nullptr); fiftyoneDegreesResourceManager m; bool managed = false; std::vector<void *> blobs; std::vector<DataSetProbe *> held; size_t good = 0, refused = 0;
	for (size_t k = (size_t)s.range(2, 10), first = 1; k-- > 0; first = 0) {
		int op = first ? (int)s.below(2) : (int)s.below(5); bool bad = s.chance(1, 5) && !first; Content x = first ? base : ::make(s, ++serial, &base); if (bad) { x.bytes.resize((size_t)s.below(12)); }
		FIFTYONE_DEGREES_EXCEPTION_CREATE fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault; Status st; DataSetProbe *d = nullptr;
		if (op == 0) {
			Str path = root + "/m" + std::to_string(files++); spit(path, x.bytes); log("%s file%s", first ? "init" : "reload", bad ? " damaged" : ""); if (bad && !exceptions) continue;
			if (first) { d = (DataSetProbe *)fiftyoneDegreesMalloc(sizeof *d); st = initDataSetFromFile(d, &c, &req, path.c_str(), exception); } else st = fiftyoneDegreesProbeReloadManagerFromFile(&m, path.c_str(), exception);
		} else if (op == 1) {
			size_t z = x.bytes.size(); void *b = c.b.freeData ? fiftyoneDegreesMalloc(z ? z : 1) : malloc(z ? z : 1); memcpy(b, x.bytes.data(), z); log("%s memory%s", first ? "init" : "reload", bad ? " damaged" : "");
			if (bad && !exceptions) { if (c.b.freeData) fiftyoneDegreesFree(b); else free(b); continue; }
			if (first) { d = (DataSetProbe *)fiftyoneDegreesMalloc(sizeof *d); st = initDataSetFromMemory(d, &c, &req, b, (long)z, exception); } else st = fiftyoneDegreesProbeReloadManagerFromMemory(&m, b, (long)z, exception);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) { if (!c.b.freeData) blobs.push_back(b); } else if (c.b.freeData) fiftyoneDegreesFree(b); else free(b);
		} else if (op == 2) { auto *u = fiftyoneDegreesDataSetProbeGet(&m); show(u, "used"); held.push_back(u); continue; }
		else { if (!held.empty()) { size_t i = (size_t)s.below(held.size()); show(held[i], "released"); fiftyoneDegreesDataSetProbeRelease(held[i]); held.erase(held.begin() + (long)i); } continue; }
		if (bad) { statuses += "status " + std::to_string((int)st) + "\n"; if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) refused++; } else T("status %d", (int)st);
		if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) { if (first) { if (op == 1) fiftyoneDegreesFree(d); break; } continue; }
		good++; if (first) { fiftyoneDegreesResourceManagerInit(&m, d, &d->b.b.handle, freeProbe); managed = true; }
		d = fiftyoneDegreesDataSetProbeGet(&m); show(d, "new"); T("files %zu", list(td).size()); fiftyoneDegreesDataSetProbeRelease(d);
	}
	for (auto *u : held) { show(u, "at the end"); fiftyoneDegreesDataSetProbeRelease(u); }
	if (managed) fiftyoneDegreesResourceManagerFree(&m); T("files %zu left %zu", list(td).size(), alloc::live()); for (auto *b : blobs) free(b); clear(root); useful = good > 1; if (refused) note("data set refused");
}
}
extern "C" __attribute__((visibility("default"))) void c31_run(C31Call *c) {
#ifdef FIFTYONE_DEGREES_NO_THREADING
	bool safe = false;
#else
	bool safe = true;
#endif
#ifdef FIFTYONE_DEGREES_MEMORY_ONLY
	bool memory = true;
#else
	bool memory = false;
#endif
	CHECK(fiftyoneDegreesThreadingGetIsThreadSafe() == safe && fiftyoneDegreesCollectionGetIsMemoryOnly() == memory, "the build says it is what it is not");
	Src s((uint64_t)0); s.via = c->choose; s.viaState = c->chooser;
	G().slot = c->slot; G().logLen = c->quiet ? MSG : 0; G().scratch = c->scratch; trace.clear(); statuses.clear(); labels.clear(); useful = false;
	switch (s.weighted({ 4, 4, 3, 2, 4, 3, 3 })) { case 0: collections(s); break; case 1: lookups(s); break; case 2: cache(s); break; case 3: sharing(s); break; case 4: request(s); break; case 5: texts(s); break; default: sets(s); }
	c->trace = trace.c_str(); c->statuses = statuses.c_str(); c->nontrivial = useful; c->labels = labels.c_str();
}
