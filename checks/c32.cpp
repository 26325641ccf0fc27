// C32: metadata objects and engine metadata.
#include "Exceptions.hpp"
#include "pbt.hpp"
#include "alloc.hpp"
#include "EngineBase.hpp"
#include "EntityMetaDataBuilder.hpp"
#include "coll.hpp"
#include "fiftyone.h"
using namespace pbt;
namespace Fod = FiftyoneDegrees::Common;
namespace {
typedef std::string Str;
typedef std::vector<Str> Strs;
Str low(Str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
Str text(Src &s) { Str o = s.chars("abAB|\xE9%", (size_t)s.small(0, s.chance(1, 20) ? 300 : 12)); if (s.chance(1, 8)) o.insert(o.begin() + (long)s.below(o.size() + 1), '\0'); return o; }
// short texts over few letters: equal ones and prefixes of each other are common
Str key(Src &s) { Str o = s.chars("ab", (size_t)s.below(4)); if (s.chance(1, 8)) o += '\0'; if (s.chance(1, 8)) o += "\xFF"; return o; }
struct P { Str name; Strs files; Str type, category, url; bool available; byte order; bool mandatory, list, obsolete, show, values; Str description, defaultValue; byte component; std::vector<uint32_t> evidence; };
P anyProperty(Src &s) {
	P p{}; p.name = key(s); for (size_t k = s.chance(1, 200) ? (size_t)s.range(250, 300) : s.below(4); k-- > 0;) p.files.push_back(text(s)); p.type = text(s); p.category = text(s); p.url = text(s); p.available = s.chance(1, 2); p.order = (byte)s.below(256);
	p.mandatory = s.chance(1, 2); p.list = s.chance(1, 2); p.obsolete = s.chance(1, 2); p.show = s.chance(1, 2); p.values = s.chance(1, 2); p.description = text(s); p.defaultValue = text(s); p.component = (byte)s.below(256);
	for (size_t k = s.chance(1, 200) ? (size_t)s.range(250, 300) : s.below(4); k-- > 0;) p.evidence.push_back((uint32_t)s.below(1ull << 32)); return p;
}
void same(const Fod::PropertyMetaData &m, const P &p, const char *what) {
#define S_(g, f, n) CHECK(m.g() == p.f, "%s: %s is not %s", what, n, quote(p.f).c_str())
#define N_(g, f, n) CHECK((long)m.g() == (long)p.f, "%s: %s is %ld instead of %ld", what, n, (long)m.g(), (long)p.f)
	S_(getName, name, "name"); S_(getKey, name, "key"); S_(getType, type, "type"); S_(getCategory, category, "category"); S_(getUrl, url, "URL"); S_(getDescription, description, "description"); S_(getDefaultValue, defaultValue, "default value");
	N_(getAvailable, available, "available"); N_(getDisplayOrder, order, "order"); N_(getIsMandatory, mandatory, "mandatory"); N_(getIsList, list, "list"); N_(getIsObsolete, obsolete, "obsolete"); N_(getShow, show, "show"); N_(getShowValues, values, "show values"); N_(getComponentId, component, "component");
	CHECK(m.getDataFilesWherePresent() == p.files, "%s: data files differ", what); CHECK(m.getEvidenceProperties() == p.evidence, "%s: evidence properties differ", what);
	Strs f = m.getDataFilesWherePresent(); f.push_back("x"); auto e = m.getEvidenceProperties(); e.push_back(1);
	CHECK(m.getDataFilesWherePresent() == p.files && m.getEvidenceProperties() == p.evidence, "%s: changing an answer changed the object", what);
}
void properties(Src &s) {
	P p = anyProperty(s), q = anyProperty(s); log("property %s and %s", quote(p.name).c_str(), quote(q.name).c_str());
	auto make = [](P p) { auto m = new Fod::PropertyMetaData(p.name, p.files, p.type, p.category, p.url, p.available, p.order, p.mandatory, p.list, p.obsolete, p.show, p.values, p.description, p.defaultValue, p.component, p.evidence); return std::unique_ptr<Fod::PropertyMetaData>(m); };
	auto a = make(p); same(*a, p, "property");
	Fod::PropertyMetaData c(a.get()), d(*a); same(c, p, "copy"); same(d, p, "copied"); CHECK(c == *a && !(c != *a), "the copy is another");
	auto b = make(q); bool eq = p.name == q.name;
	CHECK((*a == *b) == eq && (*b == *a) == eq && (*a != *b) == !eq && (*b != *a) == !eq, "%s and %s are %s", quote(p.name).c_str(), quote(q.name).c_str(), eq ? "different" : "equal");
	*a = *b; same(*a, q, "assigned"); same(c, p, "copy after the source changed"); same(d, p, "copy after the source changed"); a.reset(); same(c, p, "copy after the source went"); same(*b, q, "the other");
	if (eq && p.type != q.type) nontrivial();
}
void others(Src &s) {
	byte i = (byte)s.below(s.chance(1, 2) ? 256 : 3), j = (byte)s.below(s.chance(1, 2) ? 256 : 3); Str n = text(s), o = text(s);
	auto u32 = [&] { static const uint32_t e[] = { 0, 1, 255, 256, INT32_MAX, 1u << 31, UINT32_MAX }; return s.chance(2, 3) ? e[s.below(7)] : (uint32_t)s.below(1ull << 32); };
	uint32_t x = u32(), y = u32(); log("components %u %u, profiles %u %u", i, j, x, y);
	{
		Fod::ComponentMetaData a(i, n, x), b(j, o, y), c(&a), d(a);
		auto is = [&](const Fod::ComponentMetaData &m, byte id, const Str &nm, uint32_t df) { CHECK(m.getComponentId() == id && m.getComponentIdAsInt() == (int)id && m.getKey() == id && m.getName() == nm && m.getDefaultProfileId() == df, "component %u %s %u is %u %d %s %u", id, quote(nm).c_str(), df, m.getComponentId(), m.getComponentIdAsInt(), quote(m.getName()).c_str(), m.getDefaultProfileId()); };
		is(a, i, n, x); is(b, j, o, y); is(c, i, n, x); is(d, i, n, x); CHECK((a == b) == (i == j) && (b == a) == (i == j) && (a != b) == (i != j), "components %u and %u", i, j);
		a = b; is(a, j, o, y); is(c, i, n, x);
	}
	{
		Fod::ProfileMetaData a(x, i), b(y, j), c(&a), d(a);
		auto is = [&](const Fod::ProfileMetaData &m, uint32_t id, byte cm) { CHECK(m.getProfileId() == id && m.getKey() == id && m.getComponentId() == cm, "profile %u of %u is %u of %u", id, cm, m.getProfileId(), m.getComponentId()); };
		is(a, x, i); is(b, y, j); is(c, x, i); is(d, x, i); CHECK((a == b) == (x == y) && (b == a) == (x == y) && (a != b) == (x != y), "profiles %u and %u", x, y);
		a = b; is(a, y, j); is(c, x, i); if (x != y && (x & 0xFFFF) == (y & 0xFFFF)) nontrivial();
	}
	{
		fiftyoneDegreesDate t; memset(&t, 0, sizeof t); t.year = (int16_t)s.range(INT16_MIN, INT16_MAX); t.month = (byte)s.below(256); t.day = (byte)s.below(256); fiftyoneDegreesDate k = t;
		Fod::Date d(&t); memset(&t, 0x55, sizeof t); CHECK(d.getYear() == k.year && d.getMonth() == k.month && d.getDay() == k.day, "date %d-%d-%d is %d-%d-%d", k.year, k.month, k.day, d.getYear(), d.getMonth(), d.getDay());
		Fod::Date z; CHECK(z.getYear() == 0 && z.getMonth() == 0 && z.getDay() == 0, "the empty date");
	}
}
void values(Src &s) {
	typedef Fod::ValueMetaDataKey K;
	size_t n = (size_t)s.range(3, 8); std::vector<std::pair<Str, Str>> m; std::vector<K> k; std::vector<Fod::ValueMetaData> v; std::vector<std::pair<Str, Str>> more;
	for (size_t i = 0; i < n; i++) { m.push_back(!m.empty() && s.chance(1, 5) ? s.pick(m) : std::make_pair(key(s), key(s))); k.push_back(K(m[i].first, m[i].second)); more.push_back({ text(s), text(s) }); v.push_back(Fod::ValueMetaData(k[i], more[i].first, more[i].second)); log("%s %s", quote(m[i].first).c_str(), quote(m[i].second).c_str()); }
	std::vector<std::vector<bool>> lt(n, std::vector<bool>(n));
	bool shared = false;
	for (size_t i = 0; i < n; i++) {
		CHECK(k[i].getPropertyName() == m[i].first && k[i].getValueName() == m[i].second, "key %zu has other names", i);
		Fod::ValueMetaData c(&v[i]); for (auto *p : { &c, &v[i] }) CHECK(p->getKey() == k[i] && p->getKey().getPropertyName() == m[i].first && p->getName() == m[i].second && p->getDescription() == more[i].first && p->getUrl() == more[i].second, "value %zu differs from what it was made of", i);
		for (size_t j = 0; j < n; j++) {
			bool eq = m[i] == m[j]; lt[i][j] = k[i] < k[j];
			CHECK((k[i] == k[j]) == eq, "keys %zu and %zu are %s", i, j, eq ? "different" : "equal"); CHECK((v[i] == v[j]) == eq && (v[i] != v[j]) == !eq, "values %zu and %zu are %s", i, j, eq ? "different" : "equal");
			if (eq) CHECK(!lt[i][j], "equal keys %zu and %zu are ordered", i, j);
			shared |= !eq && m[i].first == m[j].first;
		}
	}
	for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) {
		if (m[i] != m[j]) CHECK(lt[i][j] != lt[j][i], "keys %s %s and %s %s are %s", quote(m[i].first).c_str(), quote(m[i].second).c_str(), quote(m[j].first).c_str(), quote(m[j].second).c_str(), lt[i][j] ? "each before the other" : "not ordered");
		for (size_t l = 0; l < n; l++) if (lt[i][j] && lt[j][l]) CHECK(lt[i][l], "the order of keys %zu %zu %zu is not transitive", i, j, l);
	}
	std::map<K, size_t> all; std::set<std::pair<Str, Str>> distinct(m.begin(), m.end()); for (size_t i = 0; i < n; i++) all[k[i]] = i; CHECK(all.size() == distinct.size(), "a map of the keys has %zu entries instead of %zu", all.size(), distinct.size());
	for (size_t i = 0; i < n; i++) { auto it = all.find(k[i]); CHECK(it != all.end() && m[it->second] == m[i], "key %zu is not found", i); }
	if (shared) nontrivial();
}
// --- engine
struct Meta : Fod::MetaData {
	int *deleted; Meta(std::shared_ptr<fiftyoneDegreesResourceManager> m, int *d) : MetaData(m), deleted(d) {} ~Meta() { ++*deleted; }
	Str get(fiftyoneDegreesCollection *c, uint32_t o) { return getString(c, o); }
#define NO(r, ...) r __VA_ARGS__ const override { return nullptr; }
	typedef Fod::Collection<byte, Fod::ComponentMetaData> CC; typedef Fod::Collection<Str, Fod::PropertyMetaData> PC; typedef Fod::Collection<uint32_t, Fod::ProfileMetaData> FC; typedef Fod::Collection<Fod::ValueMetaDataKey, Fod::ValueMetaData> VC;
	NO(CC *, getComponents()) NO(PC *, getProperties()) NO(FC *, getProfiles()) NO(VC *, getValues()) NO(VC *, getValuesForProperty(Fod::PropertyMetaData *)) NO(VC *, getValuesForProfile(Fod::ProfileMetaData *))
	NO(Fod::ComponentMetaData *, getComponentForProfile(Fod::ProfileMetaData *)) NO(Fod::ComponentMetaData *, getComponentForProperty(Fod::PropertyMetaData *)) NO(Fod::ProfileMetaData *, getDefaultProfileForComponent(Fod::ComponentMetaData *))
	NO(Fod::ValueMetaData *, getDefaultValueForProperty(Fod::PropertyMetaData *)) NO(PC *, getPropertiesForComponent(Fod::ComponentMetaData *)) NO(Fod::PropertyMetaData *, getPropertyForValue(Fod::ValueMetaData *)) NO(PC *, getEvidencePropertiesForProperty(Fod::PropertyMetaData *))
};
struct Builder : Fod::EntityMetaDataBuilder { static Str get(fiftyoneDegreesCollection *c, uint32_t o) { return getString(c, o); } };
struct Engine : Fod::EngineBase {
	Str product, type;
	Engine(Fod::ConfigBase *c, Fod::RequiredPropertiesConfig *p) : EngineBase(c, p) {}
	Fod::ResultsBase *processBase(Fod::EvidenceBase *) const override { return nullptr; }
	void refreshData() const override {} void refreshData(const char *) const override {} void refreshData(void *, long) const override {} void refreshData(unsigned char[], long) const override {}
	Str getDataFilePath() const override { return ""; } Str getDataFileTempPath() const override { return ""; } Fod::Date getPublishedTime() const override { return Fod::Date(); } Fod::Date getUpdateAvailableTime() const override { return Fod::Date(); }
	Str getProduct() const override { return product; } Str getType() const override { return type; }
	void headers(fiftyoneDegreesHeaders *h) { initHttpHeaderKeys(h); } void overrides(fiftyoneDegreesOverridePropertyArray *o) { initOverrideKeys(o); } void add(const Str &k) { addKey(k); }
	void meta(Fod::MetaData *m) { metaData = m; } Str append(fiftyoneDegreesCollection *c, uint32_t o, const Str &before) { std::stringstream st; st << before; appendString(st, c, o); return st.str(); }
	std::shared_ptr<fiftyoneDegreesResourceManager> man() { return manager; }
	void given(Fod::ConfigBase *c, Fod::RequiredPropertiesConfig *p) { CHECK(config == c && requiredProperties == p, "the engine has another configuration or other properties"); }
};
struct Names { fiftyoneDegreesCollection c; Strs names; };
void relName(fiftyoneDegreesCollectionItem *i) { free(i->data.ptr); }
long getHeader(void *st, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	Names *n = (Names *)st; if (index >= n->names.size()) return -1;
	const Str &t = n->names[index]; int16_t sz = (int16_t)(t.size() + 1); byte *p = (byte *)malloc(3 + t.size()); memcpy(p, &sz, 2); memcpy(p + 2, t.c_str(), t.size() + 1);
	item->data.ptr = p; item->data.used = (uint32_t)(3 + t.size()); item->data.allocated = 0; item->collection = &n->c; item->handle = nullptr; return (long)index + 1;
}
void freeNothing(void *) {}
void engine(Src &s) {
	alloc::begin();
	{
	fiftyoneDegreesConfigBase cb = { FIFTYONE_DEGREES_CONFIG_DEFAULT }; Fod::ConfigBase config(&cb); Fod::RequiredPropertiesConfig req; bool upper = s.chance(1, 2); config.setUseUpperPrefixHeaders(upper);
	std::set<Str> want; int deleted = 0; long users;
	auto e = std::unique_ptr<Engine>(new Engine(&config, &req)); e->product = s.chars("abV4", (size_t)s.below(6)); e->type = s.chars("Hash", (size_t)s.below(6));
	auto manager = e->man(); users = manager.use_count();
	auto verify = [&] {
		auto *k = e->getKeys(); CHECK(k != nullptr, "no keys"); std::set<Str> got(k->begin(), k->end()); CHECK(got.size() == k->size(), "a key is there twice");
		for (auto &x : want) CHECK(got.count(x), "key %s is missing", quote(x).c_str()); for (auto &x : got) CHECK(want.count(x), "key %s is too many", quote(x).c_str());
	};
	verify(); e->given(&config, &req);
	CHECK(e->getIsThreadSafe() == fiftyoneDegreesThreadingGetIsThreadSafe(), "thread safety"); CHECK(e->getMetaData() == nullptr, "metadata");
	Str url, licence; bool both = false;
	int n = (int)s.small(1, 8);
	for (int i = 0; i < n; i++) {
		switch (s.below(6)) {
		case 0: {	// headers
			Names names; memset(&names.c, 0, sizeof names.c); names.c.release = relName; static const char *words[] = { "user-agent", "Sec-CH-UA", "sec-ch-ua-mobile", "a", "B", "ab", "x" };
			bool many = s.chance(1, 200); if (many) label("hundreds of headers"); for (size_t q = many ? (size_t)s.range(250, 330) : (size_t)s.small(0, 8); q-- > 0;) { Str t = many ? "h" + std::to_string(q) : ""; int parts = (int)s.weighted({ 4, 3, 1 }) + 1; for (int p = 0; p < parts; p++) t += (p ? "\x1F" : "") + (s.chance(1, 5) ? s.chars("abX-", (size_t)s.range(1, 4)) : Str(words[s.below(7)])); names.names.push_back(t); log("header %s", quote(t).c_str()); }
			fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(upper, &names, getHeader); CHECK(h != nullptr, "no headers");
			for (uint32_t q = 0; q < h->count; q++) { Str t = h->items[q].name; if (t.find('\x1F') != Str::npos) { label("pseudo header"); nontrivial(); continue; } want.insert(Str("header.") + (upper ? "HTTP_" : "") + t); want.insert(Str("query.") + (upper ? "HTTP_" : "") + t); }
			e->headers(h); fiftyoneDegreesHeadersFree(h); break;
		}
		case 1: {	// overrides
			size_t c = s.chance(1, 200) ? (size_t)s.range(250, 330) : (size_t)s.small(0, 5); std::vector<fiftyoneDegreesPropertyAvailable> av(c + 1); std::vector<byte *> blocks; std::vector<fiftyoneDegreesOverrideProperty> items(c + 1);
			fiftyoneDegreesOverridePropertyArray o; memset(&o, 0, sizeof o); o.count = (uint32_t)c; o.capacity = (uint32_t)c + (uint32_t)s.below(2); o.items = items.data(); o.prefix = s.chance(1, 2);
			for (size_t q = 0; q < c; q++) { Str t = s.chars("abA", (size_t)s.range(1, 3)); if (c > 100) t += std::to_string(q); byte *p = (byte *)malloc(3 + t.size()); int16_t sz = (int16_t)(t.size() + 1); memcpy(p, &sz, 2); memcpy(p + 2, t.c_str(), t.size() + 1); blocks.push_back(p); memset(&av[q], 0, sizeof av[q]); av[q].name.data.ptr = p; items[q].available = &av[q]; items[q].requiredPropertyIndex = (uint32_t)q; log("override %s%s", o.prefix ? "51D_ " : "", quote(t).c_str()); for (const char *k : { "cookie.", "query." }) want.insert(k + Str(o.prefix ? "51D_" : "") + t); }
			e->overrides(&o); for (auto b : blocks) free(b); if (c == 0) e->overrides(nullptr); label("overrides"); break;
		}
		case 2: { Str k = s.chars("ab.", (size_t)s.below(4)); e->add(k); want.insert(k); log("key %s", quote(k).c_str()); break; }
		case 3: url = s.chance(1, 2) ? "" : "https://" + s.chars("ab?&=", (size_t)s.below(9)); e->setDataUpdateUrl(url); log("URL %s", quote(url).c_str()); break;
		case 4: licence = s.chance(1, 3) ? "" : s.chars("AB1", (size_t)s.range(1, 12)); e->setLicenseKey(licence); log("licence %s", quote(licence).c_str()); break;
		default: upper = s.chance(1, 2); config.setUseUpperPrefixHeaders(upper); log("upper %d", upper);
		}
		if (!url.empty() && !licence.empty()) both = true;
		verify();
		Str address = !url.empty() ? url : licence.empty() ? "" : "https://distributor.51degrees.com/api/v2/download?LicenceKeys=" + licence + "&Type=" + e->type + "&Product=" + e->product;
		for (int q = 0; q < 2; q++) { CHECK(e->getDataUpdateUrl() == address, "the address is %s instead of %s", quote(e->getDataUpdateUrl()).c_str(), quote(address).c_str()); CHECK(e->getAutomaticUpdatesEnabled() == !address.empty(), "automatic updates with address %s", quote(address).c_str()); }
	}
	if (both) label("URL and licence");
	bool meta = s.chance(1, 2); if (meta) { auto *m = new Meta(manager, &deleted); e->meta(m); CHECK(e->getMetaData() == m && manager.use_count() == users + 1, "the metadata does not keep the manager"); }
	bool active = s.chance(1, 2); static int freed; freed = 0; fiftyoneDegreesResourceHandle *handle = nullptr; static int data;
	if (active) { fiftyoneDegreesResourceManagerInit(manager.get(), &data, &handle, [](void *p) { freed += p == &data; }); CHECK(manager->active != nullptr, "no resource"); }
	fiftyoneDegreesResourceHandle *held = active && s.chance(1, 2) ? fiftyoneDegreesResourceHandleIncUse(manager.get()) : nullptr;
	e.reset();
	CHECK(deleted == (meta ? 1 : 0), "the metadata was deleted %d times", deleted); CHECK(manager.use_count() == 1, "the manager is still used");
	CHECK(freed == (active && !held ? 1 : 0), "the resource was freed %d times", freed); if (held) { fiftyoneDegreesResourceHandleDecUse(held); CHECK(freed == 1, "the resource was freed %d times", freed); }
	}
	alloc::expectNone("after the engine");
}
// Text of the data set.
void strings(Src &s) {
	alloc::begin();
	{
	coll::Source src; coll::Body d = coll::variableData(readString); std::vector<std::pair<uint32_t, Str>> all;
	for (size_t k = (size_t)s.range(1, 12); k-- > 0;) { Str t = s.chars("ab \xE9", (size_t)s.small(0, 60)); if (s.chance(1, 12)) { t.resize((size_t)s.range(200, 1500), 'l'); label("long text"); } all.push_back({ coll::addString(d, t), t }); }
	src.build(s, { d }); coll::How how = coll::config(s, (uint32_t)d.body.size()); src.open(4); log("%s", how.text().c_str());
	auto *c = src.make(0, how); CHECK(c != nullptr, "no collection");
	std::shared_ptr<fiftyoneDegreesResourceManager> m(new fiftyoneDegreesResourceManager()); int deleted = 0;
	fiftyoneDegreesConfigBase cb = { FIFTYONE_DEGREES_CONFIG_DEFAULT }; Fod::ConfigBase config(&cb);
	{
	Meta meta(m, &deleted); Engine e(&config, nullptr);
	for (int k = (int)s.range(1, 20); k-- > 0;) {
		auto &x = all[s.below(all.size())]; Str before = s.chars("xy", s.below(3));
		CHECK(meta.get(c, x.first) == x.second && Builder::get(c, x.first) == x.second && e.append(c, x.first, before) == before + x.second, "the text at %u is not %s", x.first, quote(x.second).c_str());
		if (s.chance(1, 5)) for (int w = 0; w < 3; w++) {
			int code = -1; uint32_t o = (uint32_t)d.body.size() + (uint32_t)s.below(5);
			try { w == 0 ? meta.get(c, o) : w == 1 ? Builder::get(c, o) : e.append(c, o, ""); } catch (const Fod::StatusCodeException &ex) { code = ex.getCode(); }
			CHECK(code != -1, "offset %u past the end (%zu) gave a text", o, d.body.size()); label("past the end");
		}
		if (!how.memory) nontrivial();
	}
	}
	c->freeCollection(c); coll::checkPool(src, "after reading"); src.close();
	}
	alloc::expectNone("after the texts");
}
}
int main(int argc, char **argv) {
	alloc::install();
	suite("properties", properties, 50000, 600000, "any property metadata, copies and comparisons; non-trivial = equal names with other contents");
	suite("others", others, 40000, 1000000, "components, profiles and dates; non-trivial = profile ids equal in the lower 16 bits only");
	suite("values", values, 40000, 300000, "sets of value keys: order and equality of all pairs and triples; non-trivial = different values of one property");
	suite("engine", engine, 60000, 600000, "keys, addresses, disposal; non-trivial = pseudo headers");
	suite("strings", strings, 20000, 200000, "texts of collections in any storage; non-trivial = stored in a file");
	Options o; o.assumptions = { "the engine's product and type are the harness's", "names of headers and properties contain no NUL" };
	return runMain(argc, argv, o);
}
