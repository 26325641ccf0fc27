// C28: configuration and evidence wrappers.
#include "Exceptions.hpp"
#include "pbt.hpp"
#include "alloc.hpp"
#include "ConfigBase.hpp"
#include "CollectionConfig.hpp"
#include "RequiredPropertiesConfig.hpp"
#include "EvidenceBase.hpp"
#include "fiftyone.h"
using namespace pbt;
namespace Fod = FiftyoneDegrees::Common;
namespace {
typedef std::string Str;
typedef std::vector<Str> Strs;
Str low(Str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
Str recase(Src &s, Str n) { for (auto &c : n) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return n; }
Str show(const Strs &v) { Str o; for (auto &x : v) o += quote(x) + " "; return o; }
// how many there are: mostly few, now and then more than a byte or a short integer counts
size_t count(Src &s, int64_t few) { if (s.chance(1, 100)) { label("hundreds"); return (size_t)s.range(120, 400); } if (s.chance(1, 3000)) { label("tens of thousands"); return (size_t)s.range(32000, 70000); } return (size_t)s.small(0, few); }
template <class T> std::unique_ptr<T> heap(const T &t) { return std::unique_ptr<T>(new T(t)); }
// --- general configuration
void config(Src &s) {
	alloc::begin();
	{
	auto c = heap(fiftyoneDegreesConfigBase{ FIFTYONE_DEGREES_CONFIG_DEFAULT });
	c->allInMemory = s.chance(1, 2); c->freeData = s.chance(1, 2); bool mem = c->allInMemory, fr = c->freeData;
	bool upper = s.chance(1, 2), temp = s.chance(1, 2), reuse = s.chance(1, 2); c->usesUpperPrefixedHeaders = upper; c->useTempFile = temp; c->reuseTempFile = reuse;
	Strs dirs; int sets = 0;
	auto w = std::unique_ptr<Fod::ConfigBase>(new Fod::ConfigBase(c.get()));
	auto verify = [&] {
		for (int k = 0; k < 2; k++) {
			CHECK(w->getUseUpperPrefixHeaders() == upper && c->usesUpperPrefixedHeaders == upper, "upper prefixes: %d %d, set %d", w->getUseUpperPrefixHeaders(), c->usesUpperPrefixedHeaders, upper);
			CHECK(w->getUseTempFile() == temp && c->useTempFile == temp, "temporary file: %d %d, set %d", w->getUseTempFile(), c->useTempFile, temp);
			CHECK(w->getReuseTempFile() == reuse && c->reuseTempFile == reuse, "re-use: %d %d, set %d", w->getReuseTempFile(), c->reuseTempFile, reuse);
			CHECK(c->allInMemory == mem && c->freeData == fr, "something else changed");
			Strs got = w->getTempDirectories(); CHECK(got == dirs, "directories %s instead of %s", show(got).c_str(), show(dirs).c_str());
			for (auto &g : got) g = "changed";
			CHECK(c->tempDirCount == (int)dirs.size(), "%d directories for the engine instead of %zu", c->tempDirCount, dirs.size());
			for (size_t i = 0; i < dirs.size(); i++) CHECK(dirs[i] == c->tempDirs[i], "directory %zu for the engine is %s", i, quote(c->tempDirs[i]).c_str());
		}
	};
	verify();
	int n = (int)s.small(0, 14);
	for (int i = 0; i < n; i++) {
		switch (s.below(4)) {
		case 0: upper = s.chance(1, 2); w->setUseUpperPrefixHeaders(upper); log("upper %d", upper); break;
		case 1: temp = s.chance(1, 2); w->setUseTempFile(temp); log("temp %d", temp); break;
		case 2: reuse = s.chance(1, 2); w->setReuseTempFile(reuse); log("reuse %d", reuse); break;
		default: {
			Strs v; size_t k = count(s, 6); for (bool many = k > 500; k-- > 0;) v.push_back(many ? std::to_string(k) : s.chars("/tmp\\a \xC3", s.chance(1, 200) ? (size_t)s.range(250, 5000) : (size_t)s.small(0, 40)));
			log("%zu directories %s", v.size(), v.size() > 500 ? "" : show(v).c_str()); w->setTempDirectories(v); dirs = v; for (auto &x : v) x.assign(x.size() + 1, '#'); v.clear();
			if (++sets > 1) nontrivial();
		}
		}
		if (s.chance(2, 3)) verify();
	}
	verify();
	w.reset();
	CHECK(c->tempDirs == nullptr && c->tempDirCount == 0, "directories are left in the configuration");
	}
	alloc::expectNone("after the configuration");
}
void collection(Src &s) {
	size_t n = (size_t)s.range(1, 3); std::vector<std::unique_ptr<fiftyoneDegreesCollectionConfig>> c; std::vector<Fod::CollectionConfig> w; std::vector<fiftyoneDegreesCollectionConfig> m;
	auto u32 = [&] { static const uint32_t e[] = { 0, 1, 65535, 65536, INT32_MAX, UINT32_MAX }; return s.chance(1, 3) ? e[s.below(6)] : (uint32_t)s.small(0, 100000); };
	auto u16 = [&] { static const uint16_t e[] = { 0, 1, 255, 256, 32768, 65535 }; return s.chance(1, 3) ? e[s.below(6)] : (uint16_t)s.small(0, 1000); };
	for (size_t i = 0; i < n; i++) { m.push_back({ u32(), u32(), u16() }); c.push_back(heap(m[i])); w.push_back(Fod::CollectionConfig(c[i].get())); }
	int steps = (int)s.small(1, 15);
	for (int k = 0; k < steps; k++) {
		size_t i = s.below(n);
		switch (s.below(4)) {
		case 0: m[i].capacity = u32(); w[i].setCapacity(m[i].capacity); break;
		case 1: m[i].concurrency = u16(); w[i].setConcurrency(m[i].concurrency); break;
		case 2: m[i].loaded = u32(); w[i].setLoaded(m[i].loaded); break;
		default: { Fod::CollectionConfig x(w[i]), y; y = x; w[i] = y; }
		}
		for (size_t j = 0; j < n; j++) {
			CHECK(w[j].getCapacity() == m[j].capacity && c[j]->capacity == m[j].capacity, "capacity %u %u instead of %u", w[j].getCapacity(), c[j]->capacity, m[j].capacity);
			CHECK(w[j].getConcurrency() == m[j].concurrency && c[j]->concurrency == m[j].concurrency, "concurrency %u %u instead of %u", w[j].getConcurrency(), c[j]->concurrency, m[j].concurrency);
			CHECK(w[j].getLoaded() == m[j].loaded && c[j]->loaded == m[j].loaded, "loaded %u %u instead of %u", w[j].getLoaded(), c[j]->loaded, m[j].loaded);
			CHECK(w[j].getConfig() == c[j].get(), "another structure");
		}
	}
	if (steps > 5) nontrivial();
}
// --- required properties
struct Required { int kind; Strs names; Str text; }; // 0 all, 1 array, 2 text
void verify(Src &s, Fod::RequiredPropertiesConfig &r, const Required &m) {
	int n = (int)s.small(1, 6);
	for (int k = 0; k < n; k++) switch (s.below(4)) {
	case 0: { Strs g = r.getProperties(); CHECK(g == m.names, "properties %s instead of %s", show(g).c_str(), show(m.names).c_str()); for (auto &x : g) x = "changed"; log("list"); break; }
	case 1: CHECK(r.getCount() == (int)m.names.size(), "%d properties instead of %zu", r.getCount(), m.names.size()); log("count"); break;
	case 2: {
		Str q = !m.names.empty() && s.chance(2, 3) ? recase(s, s.pick(m.names)) : s.chars("abAB_", (size_t)s.below(4));
		if (s.chance(1, 5)) q += s.chars("aB", 1); else if (s.chance(1, 6) && !q.empty()) q.pop_back();
		bool want = false; for (auto &x : m.names) want |= low(x) == low(q);
		CHECK(r.containsProperty(q) == want && r.containsProperty(q.c_str()) == want, "%s is %scontained", quote(q).c_str(), want ? "not " : ""); log("contains %s", quote(q).c_str()); break;
	}
	default: {
		auto *c = r.getConfig(); CHECK(c != nullptr && c->existing == nullptr, "another selection");
		if (m.kind == 1) { CHECK(c->array != nullptr && c->string == nullptr && c->count == (int)m.names.size(), "not the array of %zu", m.names.size()); for (int i = 0; i < c->count; i++) CHECK(m.names[(size_t)i] == c->array[i], "name %d for the engine is %s", i, quote(c->array[i]).c_str()); }
		else CHECK(c->array == nullptr && c->count == 0, "an array of %d", c->count);
		if (m.kind == 2) CHECK(c->string != nullptr && m.text == c->string, "text %s for the engine instead of %s", c->string ? quote(c->string).c_str() : "NULL", quote(m.text).c_str());
		else CHECK(c->string == nullptr, "a text");
		log("engine");
	}
	}
}
void required(Src &s) {
	alloc::begin();
	{
	typedef std::unique_ptr<Fod::RequiredPropertiesConfig> P;
	auto make = [&](Required &m) {
		m = Required(); P p; size_t n = count(s, 8);
		Strs names; for (size_t i = 0; i < n; i++) names.push_back(n > 500 ? "p" + std::to_string(i) : s.chance(1, 500) ? Str(s.chance(1, 5) ? (size_t)s.range(65000, 70000) : (size_t)s.range(100, 400), 'n') : !names.empty() && s.chance(1, 3) ? recase(s, s.pick(names)) + s.chars("aB", s.below(2)) : s.chars("abAB_.", (size_t)s.range(1, 10)));
		int how = (int)s.below(7);
		if (how == 0) { m.kind = 0; const Str *none = nullptr; switch (s.below(4)) { case 0: return P(new Fod::RequiredPropertiesConfig()); case 1: return P(new Fod::RequiredPropertiesConfig((const char *)nullptr)); case 2: return P(new Fod::RequiredPropertiesConfig(none)); default: return P(new Fod::RequiredPropertiesConfig((const Strs *)nullptr)); } }
		if (how <= 3) {
			m.kind = 1; for (auto &x : names) if (s.chance(1, 10)) x = s.chance(1, 2) ? "" : x + "|" + x + ", x"; m.names = names;
			log("array of %zu: %s", names.size(), names.size() > 500 ? "" : show(names).c_str()); p.reset(s.chance(1, 2) ? new Fod::RequiredPropertiesConfig(&names) : new Fod::RequiredPropertiesConfig((const Strs *)&names)); for (auto &x : names) x.assign(x.size(), '#'); names.clear(); return p;
		}
		m.kind = 2; m.names = names; static const char *sep[] = { ",", "|", " ", ", ", ",,", " |" }; bool mixed = s.chance(1, 3);
		if (mixed && s.chance(1, 3)) m.text += sep[s.below(6)];
		for (size_t i = 0; i < n; i++) m.text += (i ? sep[mixed ? s.below(6) : 0] : "") + names[i];
		if (mixed && s.chance(1, 3)) m.text += sep[s.below(6)];
		log("text %s", m.names.size() > 500 ? "with very many" : quote(m.text).c_str());
		Str t = m.text; std::vector<char> z(t.c_str(), t.c_str() + t.size() + 1);
		switch (s.below(3)) { case 0: p.reset(new Fod::RequiredPropertiesConfig(t)); break; case 1: p.reset(new Fod::RequiredPropertiesConfig(&t)); break; default: p.reset(new Fod::RequiredPropertiesConfig(z.data())); }
		t.assign(t.size(), '#'); std::fill(z.begin(), z.end(), '#'); return p;
	};
	Required m; P p = make(m); verify(s, *p, m); verify(s, *p, m);
	static const char *k[] = { "all", "array", "text" }; label(k[m.kind]); if (m.names.size() > 1) nontrivial();
	if (s.chance(1, 3)) {
		log("copied"); label("copied"); P q(new Fod::RequiredPropertiesConfig(*p)); verify(s, *q, m);
		if (s.chance(1, 2)) { p.reset(); verify(s, *q, m); } else { q.reset(); verify(s, *p, m); }
		P &left = p ? p : q; Required o; P other = make(o); log("assigned"); *other = *left; verify(s, *other, m); verify(s, *left, m);
	}
	}
	alloc::expectNone("after the configuration");
}
// --- evidence
struct Evidence : Fod::EvidenceBase {
	int relevant = -1; // mask of the prefixes
	bool isRelevant(fiftyoneDegreesEvidencePrefix p) override { return (relevant & (int)p) != 0; }
};
const struct { const char *text; fiftyoneDegreesEvidencePrefix prefix; } prefixes[] = {
	{ "server.", FIFTYONE_DEGREES_EVIDENCE_SERVER }, { "header.", FIFTYONE_DEGREES_EVIDENCE_HTTP_HEADER_STRING }, { "query.", FIFTYONE_DEGREES_EVIDENCE_QUERY }, { "cookie.", FIFTYONE_DEGREES_EVIDENCE_COOKIE } };
template <class E> void verifyEvidence(E &e, const std::map<Str, Str> &m, int relevant) {
	for (int k = 0; k < 2; k++) {
		const std::map<Str, Str> &plain = e; CHECK(plain == m, "the map has other entries");
		auto *a = e.get(); CHECK(a != nullptr, "no evidence");
		std::map<std::pair<int, Str>, Str> got, want;
		for (auto &x : m) for (auto &p : prefixes) if (x.first.size() > strlen(p.text) && x.first.compare(0, strlen(p.text), p.text) == 0 && (relevant & (int)p.prefix)) want[{ (int)p.prefix, x.first.substr(strlen(p.text)) }] = x.second;
		CHECK(a->capacity >= a->count && a->pseudoEvidence == nullptr, "capacity %u for %u", a->capacity, a->count);
		for (uint32_t i = 0; i < a->count; i++) {
			auto &p = a->items[i]; std::pair<int, Str> key((int)p.prefix, p.field);
			CHECK(!got.count(key), "%s twice", quote(p.field).c_str()); got[key] = (const char *)p.originalValue; CHECK(p.parsedValue == nullptr, "already parsed");
		}
		for (auto &x : want) CHECK(got.count(x.first) && got[x.first] == x.second, "%d %s is %s instead of %s", x.first.first, quote(x.first.second).c_str(), got.count(x.first) ? quote(got[x.first]).c_str() : "missing", quote(x.second).c_str());
		CHECK(got.size() == want.size(), "%zu entries instead of %zu", got.size(), want.size());
		if (want.size() > 1 && want.size() < m.size()) nontrivial();
		if (want.empty() && !m.empty()) label("none recognised");
	}
}
void evidence(Src &s) {
	alloc::begin();
	{
	std::vector<std::unique_ptr<Evidence>> es; std::vector<std::map<Str, Str>> ms;
	es.emplace_back(new Evidence()); ms.emplace_back();
	auto key = [&](size_t i) {
		if (!ms[i].empty() && s.chance(1, 3)) { auto it = ms[i].begin(); std::advance(it, (long)s.below(ms[i].size())); return it->first; }
		static const char *other[] = { "", "header", "headers.", "location.", "HEADER", "query", "cookies.", ".", "server_", "quer", " header.", "xheader." };
		Str k = s.chance(3, 4) ? prefixes[s.below(4)].text : other[s.below(12)]; k += s.chars("aB-.\xE9", (size_t)s.below(5)); if (s.chance(1, 80)) { size_t to = (s.chance(1, 6) ? 65536 : 256) + (size_t)s.below(12); if (k.size() < to) k.resize(to, 'x'); label("long key"); } return k;
	};
	int n = (int)s.small(1, 25);
	for (int step = 0; step < n; step++) {
		size_t i = s.below(es.size()); Evidence &e = *es[i]; auto &m = ms[i];
		if (s.chance(1, 600)) { size_t q = s.chance(1, 12) ? (size_t)s.range(65000, 67000) : (size_t)s.range(200, 400); log("%zu: %zu more", i, q); label("hundreds of entries"); const char *p = prefixes[s.below(4)].text; for (size_t j = 0; j < q; j++) { Str k = p + std::to_string(j); e[k] = "v"; m[k] = "v"; } }
		switch (s.weighted({ 8, 3, 1, 2, 1, 4, 1, 1, 1, 1 })) {
		case 0: { Str k = key(i), v = s.chars("ab=; \x80", (size_t)s.small(0, 30)); if (s.chance(1, 500)) { v += Str((size_t)s.range(250, 70000), 'v'); label("a long value"); } e[k] = v; m[k] = v; log("%zu: %s = %s", i, quote(k).c_str(), quote(v).c_str()); break; }
		case 1: { Str k = key(i), v = s.chars("ab", (size_t)s.below(5)); e.insert({ k, v }); m.insert({ k, v }); log("%zu: insert %s", i, quote(k).c_str()); break; }
		case 2: e.clear(); m.clear(); log("%zu: clear", i); label("cleared"); break;
		case 3: { Str k = key(i); auto it = e.find(k); if (it != e.end()) { e.erase(it); m.erase(k); log("%zu: erase %s", i, quote(k).c_str()); label("erased"); } break; }
		case 4: { size_t a = s.below(m.size() + 1), b = s.below(m.size() + 1); if (a > b) std::swap(a, b); auto f = e.begin(), l = e.begin(); std::advance(f, (long)a); std::advance(l, (long)b); e.erase(f, l); auto mf = m.begin(), ml = m.begin(); std::advance(mf, (long)a); std::advance(ml, (long)b); m.erase(mf, ml); log("%zu: erase %zu to %zu", i, a, b); break; }
		case 5: verifyEvidence(e, m, e.relevant); log("%zu: get", i); break;
		case 6: e.relevant = (int)s.below(256); if (s.chance(1, 2)) e.relevant = -1; log("%zu: relevant %x", i, e.relevant); break;
		case 7: if (es.size() < 4) { es.emplace_back(new Evidence(e)); ms.push_back(ms[i]); log("%zu: copied", i); label("copied"); } break;
		case 8: { size_t j = s.below(es.size()); *es[j] = e; ms[j] = std::map<Str, Str>(ms[i]); log("%zu: assigned to %zu", i, j); label("assigned"); break; }
		default: if (es.size() > 1) { es.erase(es.begin() + (long)i); ms.erase(ms.begin() + (long)i); log("%zu: deleted", i); }
		}
	}
	for (size_t i = 0; i < es.size(); i++) verifyEvidence(*es[i], ms[i], es[i]->relevant);
	if (s.chance(1, 4)) { Fod::EvidenceBase b; for (auto &x : ms[0]) b[x.first] = x.second; verifyEvidence(b, ms[0], -1); } // everything is relevant by default
	}
	alloc::expectNone("after the evidence");
}
}
int main(int argc, char **argv) {
	alloc::install();
	suite("config", config, 60000, 1000000, "any sequence of settings; non-trivial = temporary directories set more than once");
	suite("collection", collection, 60000, 500000, "several collection configurations; non-trivial = more than five settings");
	suite("required", required, 80000, 1500000, "properties as nothing, list or text, asked about repeatedly, copied; non-trivial = more than one property");
	suite("evidence", evidence, 50000, 1000000, "any history of evidence maps, conversions and copies; non-trivial = some but not all entries are recognised");
	Options o; o.assumptions = { "texts contain no NUL", "names in a text are separated by any of the characters |, comma and space, as the engine does", "evidence prefixes are spelt in lower case" };
	return runMain(argc, argv, o);
}
