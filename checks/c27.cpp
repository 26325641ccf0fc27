// C27: results as typed values.
#include "Exceptions.hpp"
#include "pbt.hpp"
#include "alloc.hpp"
#include "ResultsBase.hpp"
#include "fiftyone.h"
#include <strings.h>
using namespace pbt;
using namespace FiftyoneDegrees::Common; namespace Common = FiftyoneDegrees::Common;
namespace {
typedef std::string Str;
typedef std::vector<Str> Strs;
typedef fiftyoneDegreesResultsNoValueReason Reason;
const Reason reasons[] = {
	FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_DIFFERENCE, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NO_MATCHED_NODES,
	FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NO_RESULT_FOR_PROPERTY,
	FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NO_RESULTS, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES,
	FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_NULL_PROFILE, FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN };
Str low(Str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
Str recase(Src &s, Str n) { for (auto &c : n) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return n; }
struct Names { Strs names; fiftyoneDegreesCollection c; };
void freeItem(fiftyoneDegreesCollectionItem *i) { free(i->data.ptr); i->data.ptr = nullptr; }
fiftyoneDegreesString *getName(void *st, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	Names *o = (Names *)st; if (index >= o->names.size()) return nullptr;
	const Str &n = o->names[index]; int16_t sz = (int16_t)(n.size() + 1);
	char *p = (char *)malloc(3 + n.size()); memcpy(p, &sz, 2); memcpy(p + 2, n.c_str(), n.size() + 1);
	item->data.ptr = (byte *)p; item->data.used = (uint32_t)(3 + n.size()); item->data.allocated = 0; item->collection = &o->c; item->handle = nullptr;
	return (fiftyoneDegreesString *)p;
}
uint32_t getEvidence(void *, fiftyoneDegreesPropertyAvailable *, fiftyoneDegreesEvidenceProperties *) { return 0; }
struct Stored { bool has; Strs values; Reason reason; Str message; bool noMessage; };
// What an engine adds: the stored values.
struct Results : ResultsBase {
	std::map<int, Stored> *stored; Stored none;
	Results(fiftyoneDegreesResultsBase *r, std::shared_ptr<fiftyoneDegreesResourceManager> m, std::map<int, Stored> *st, const Stored &n) : ResultsBase(r, m), stored(st), none(n) {}
	const Stored &at(int i) { auto it = stored->find(i); return it == stored->end() ? none : it->second; }
	std::map<int, const Stored *> lastReason;
	bool hasValuesInternal(int i) override { return at(i).has; }
	void getValuesInternal(int i, vector<string> &v) override { for (auto &x : at(i).values) v.push_back(x); }
	Reason getNoValueReasonInternal(int i) override { asked = i; return at(i).reason; }
	const char *getNoValueMessageInternal(Reason r) override { CHECK(r == at(asked).reason, "the message of reason %d was asked for instead of %d", (int)r, (int)at(asked).reason); return at(asked).noMessage ? nullptr : at(asked).message.c_str(); }
	int asked = 0;
};
enum Thrown { NOTHING, INVALID, MANY, NONE, OTHER };
template <class T> struct Got { bool has; T value; Reason reason; bool message; Str text; Thrown thrown; Str what; };
template <class T> Got<T> look(Common::Value<T> v) {
	Got<T> g{}; g.has = v.hasValue(); g.reason = v.getNoValueReason(); g.message = v.getNoValueMessage() != nullptr; if (g.message) g.text = v.getNoValueMessage();
	for (int k = 0; k < 2; k++) {
		Thrown t = NOTHING; Str w; T val{};
		try { val = k ? *v : v.getValue(); }
		catch (const InvalidPropertyException &e) { t = INVALID; w = e.what(); }
		catch (const TooManyValuesException &e) { t = MANY; w = e.what(); }
		catch (const NoValuesAvailableException &e) { t = NONE; w = e.what(); }
		catch (...) { t = OTHER; }
		if (k == 0) { g.thrown = t; g.what = w; g.value = val; } else CHECK(t == g.thrown && w == g.what && val == g.value, "the operator and the method differ");
	}
	return g;
}
template <class T> bool operator==(const Got<T> &a, const Got<T> &b) { return a.has == b.has && (!a.has || a.value == b.value) && (a.has || (a.reason == b.reason && a.message == b.message && a.text == b.text)) && a.thrown == b.thrown && a.what == b.what; }
// A no-value raises the error of its reason with its message.
template <class T> void noValue(const Got<T> &g, Reason r, bool message, const Str &text, const char *what) {
	CHECK(!g.has, "%s: there is a value", what);
	CHECK(g.reason == r, "%s: reason %d instead of %d", what, (int)g.reason, (int)r);
	CHECK(g.message == message && g.text == text, "%s: message %s instead of %s", what, quote(g.text).c_str(), quote(text).c_str());
	Thrown want = r == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY ? INVALID : r == FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES ? MANY : NONE;
	CHECK(g.thrown == want, "%s: error %d instead of %d for reason %d", what, (int)g.thrown, (int)want, (int)r);
	if (want != MANY) CHECK(message ? g.what == text : !g.what.empty(), "%s: the error says %s instead of %s", what, quote(g.what).c_str(), quote(text).c_str());
	else CHECK(!g.what.empty(), "%s: the error says nothing", what);
}
template <class T> void value(const Got<T> &g, const T &want, const char *what, const Str &show) {
	CHECK(g.has && g.thrown == NOTHING, "%s: no value instead of %s (reason %d)", what, quote(show).c_str(), (int)g.reason);
	CHECK(g.value == want || (g.value != g.value && want != want), "%s: another value than %s", what, quote(show).c_str());
}
void run(Src &s) {
	alloc::begin();
	{
	Names o; memset(&o.c, 0, sizeof o.c); o.c.release = freeItem; std::set<Str> have; bool many = s.chance(1, 100); size_t n = many ? (size_t)s.range(120, 400) : (size_t)s.small(0, 12); if (many) label("hundreds of properties");
	for (size_t i = 0; i < n; i++) { Str nm = !o.names.empty() && s.chance(1, 3) ? s.pick(o.names) + s.chars("abZ_", 1) : s.chars("abXZ_[-.\xC3\xE9", (size_t)s.range(1, 9)); if (many) nm += std::to_string(i); if (have.insert(low(nm)).second) o.names.push_back(nm); }
	fiftyoneDegreesPropertiesRequired req = fiftyoneDegreesPropertiesDefault;
	fiftyoneDegreesPropertiesAvailable *av = fiftyoneDegreesPropertiesCreate(&req, &o, getName, getEvidence); CHECK(av != nullptr, "no properties");
	fiftyoneDegreesDataSetBase &ds = *(fiftyoneDegreesDataSetBase *)calloc(1, sizeof(fiftyoneDegreesDataSetBase)); ds.available = av;
	fiftyoneDegreesResultsBase base; fiftyoneDegreesResultsInit(&base, &ds); CHECK(base.dataSet == &ds, "other data set");
	std::map<int, Stored> stored;
	auto anyStored = [&](bool forceNone) {
		Stored t; t.reason = reasons[s.below(8)]; t.noMessage = s.chance(1, 4); t.message = s.chars("ab %s", (size_t)s.below(12)); if (t.noMessage) t.message = "";
		t.has = !forceNone && s.chance(4, 5);
		return t;
	};
	struct Kind { int what; int i; double d; bool b; }; std::map<int, Kind> kinds;
	for (uint32_t i = 0; i < av->count; i++) {
		Stored t = anyStored(false); Kind k{ (int)s.below(4), 0, 0, false };
		size_t c = t.has ? (s.chance(3, 5) ? 1 : s.chance(1, 8) ? 0 : s.chance(1, 200) ? (size_t)s.range(200, 400) : (size_t)s.small(2, 6)) : 0;
		for (size_t q = 0; q < c; q++) {
			Str v; char b[64];
			switch (k.what) {
			case 0: v = s.chars("ab|,True \xE9", s.chance(1, 300) ? (size_t)s.range(250, 3000) : (size_t)s.below(10)); break;
			case 1: { k.b = s.chance(1, 2); static const char *f[] = { "False", "true", "TRUE", "Truee", "Tru", "", "True ", " True", "1", "Yes", "T" }; v = k.b ? "True" : f[s.chance(1, 2) ? 0 : s.below(11)]; break; }
			case 2: { static const int e[] = { 0, 1, -1, INT_MAX, INT_MIN, 1000000000 }; k.i = s.chance(1, 3) ? e[s.below(6)] : (int)s.range(-100000, 100000); snprintf(b, sizeof b, s.chance(1, 5) ? "%+d" : s.chance(1, 5) ? " %d" : s.chance(1, 5) ? "%012d" : "%d", k.i); v = b; k.d = k.i; break; }
			default: { k.d = s.chance(1, 4) ? (double)s.range(-1000, 1000) : ldexp((double)s.range(-((int64_t)1 << 53), (int64_t)1 << 53), (int)s.range(-1000, 900)); snprintf(b, sizeof b, "%.17g", k.d); v = b; }
			}
			t.values.push_back(v);
		}
		stored[(int)i] = t; kinds[(int)i] = k;
		Str all; for (auto &v : t.values) all += quote(v) + " "; log("%s: %s%s reason %d message %s", quote(STRING(fiftyoneDegreesPropertiesGetNameFromRequiredIndex(av, (int)i))).c_str(), t.has ? "" : "none ", all.c_str(), (int)t.reason, t.noMessage ? "none" : quote(t.message).c_str());
	}
	Stored none = anyStored(true); none.reason = FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_INVALID_PROPERTY;
	std::shared_ptr<fiftyoneDegreesResourceManager> m(new fiftyoneDegreesResourceManager());
	{
		Results r(&base, m, &stored, none);
		CHECK(m.use_count() == 2, "the results do not keep their manager");
		CHECK(r.getAvailableProperties() == (int)av->count, "%d properties instead of %u", r.getAvailableProperties(), av->count);
		Strs names = r.getProperties(); CHECK(names.size() == av->count && names.size() == o.names.size(), "%zu names", names.size());
		std::set<Str> all(names.begin(), names.end()); CHECK(all == std::set<Str>(o.names.begin(), o.names.end()), "the names differ from those offered");
		for (size_t i = 0; i < names.size(); i++) CHECK(r.getPropertyName((int)i) == names[i], "name %zu differs", i);
		for (int i : { -1, (int)av->count, (int)av->count + 1, INT_MAX, INT_MIN }) CHECK(r.getPropertyName(i).empty(), "position %d has a name", i);
		int steps = (int)s.small(1, 12);
		for (int k = 0; k < steps; k++) {
			int idx = names.empty() || s.chance(1, 6) ? (s.chance(1, 2) ? -1 : (int)s.range(-3, 20)) : (int)s.below(names.size());
			bool known = idx >= 0 && idx < (int)names.size();
			Str name = known ? recase(s, names[(size_t)idx]) : "";
			if (!known) { name = s.chars("abXZ_", (size_t)s.below(6)); if (have.count(low(name))) name = "?"; }
			CHECK(r.containsProperty(name) == known, "%s is %spresent", quote(name).c_str(), known ? "not " : "");
			const Stored &t = known ? stored[idx] : none; Kind kd = known ? kinds[idx] : Kind{};
			auto T = look(r.getValueAsString(idx)); auto B = look(r.getValueAsBool(idx)); auto I = look(r.getValueAsInteger(idx)); auto D = look(r.getValueAsDouble(idx)); auto L = look(r.getValues(idx));
			// By name: the same.
			CHECK(look(r.getValueAsString(name.c_str())) == T && look(r.getValueAsString(name)) == T && look(r.getValueAsString(&name)) == T, "the text of %s differs by name", quote(name).c_str());
			CHECK(look(r.getValueAsBool(name.c_str())) == B && look(r.getValueAsBool(name)) == B && look(r.getValueAsBool(&name)) == B, "the boolean of %s differs by name", quote(name).c_str());
			CHECK(look(r.getValueAsInteger(name.c_str())) == I && look(r.getValueAsInteger(name)) == I && look(r.getValueAsInteger(&name)) == I, "the integer of %s differs by name", quote(name).c_str());
			CHECK(look(r.getValueAsDouble(name.c_str())) == D && look(r.getValueAsDouble(name)) == D && look(r.getValueAsDouble(&name)) == D, "the decimal of %s differs by name", quote(name).c_str());
			CHECK(look(r.getValues(name.c_str())) == L && look(r.getValues(name)) == L && look(r.getValues(&name)) == L, "the list of %s differs by name", quote(name).c_str());
			log("asked %d %s", idx, quote(name).c_str());
			if (!t.has) {
				noValue(T, t.reason, !t.noMessage, t.message, "text"); noValue(B, t.reason, !t.noMessage, t.message, "boolean"); noValue(I, t.reason, !t.noMessage, t.message, "integer");
				noValue(D, t.reason, !t.noMessage, t.message, "decimal"); noValue(L, t.reason, !t.noMessage, t.message, "list");
				label(known ? "no value" : "unknown property"); continue;
			}
			value(L, t.values, "list", "the values");
			if (t.values.empty()) { CHECK(!T.has || T.value.empty(), "no values are the text %s", quote(T.value).c_str()); CHECK(!B.has && !I.has && !D.has, "no values are a boolean, an integer or a decimal"); label("an empty list"); continue; }
			Str joined; for (size_t q = 0; q < t.values.size(); q++) joined += (q ? "|" : "") + t.values[q];
			value(T, joined, "text", joined);
			if (t.values.size() > 1) {
				Reason many = FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_TOO_MANY_VALUES;
				noValue(B, many, false, "", "boolean of several"); noValue(I, many, false, "", "integer of several"); noValue(D, many, false, "", "decimal of several");
				label("several values"); nontrivial();
			} else {
				value(B, t.values[0] == "True", "boolean", t.values[0]);
				if (kd.what == 2) value(I, kd.i, "integer", t.values[0]);
				if (kd.what >= 2) value(D, kd.d, "decimal", t.values[0]);
				static const char *n[] = { "text", "boolean", "integer", "decimal" }; label(n[kd.what]);
			}
		}
	}
	CHECK(m.use_count() == 1, "the results were disposed of but the manager is still used");
	fiftyoneDegreesPropertiesFree(av); free(&ds);
	}
	alloc::expectNone("after the results");
}
// Any history of a value: the last thing said counts.
void history(Src &s) {
	Common::Value<Str> v; bool has = false; Str val; Reason r = FIFTYONE_DEGREES_RESULTS_NO_VALUE_REASON_UNKNOWN; Str msg; bool m = false; std::vector<Str> keep; keep.reserve(32);
	int n = (int)s.small(0, 8);
	for (int i = 0;; i++) {
		auto g = look(v);
		if (has) value(g, val, "value", val); else noValue(g, r, m, msg, "no value");
		if (i == n) break;
		switch (s.below(3)) {
		case 0: val = s.chars("ab", (size_t)s.below(5)); v.setValue(val); has = true; log("value %s", quote(val).c_str()); break;
		case 1: r = reasons[s.below(8)]; m = s.chance(2, 3); msg = m ? s.chars("xyz", (size_t)s.below(9)) : ""; keep.push_back(msg); if (has) nontrivial(); v.setNoValueReason(r, m ? keep.back().c_str() : nullptr); has = false; log("reason %d message %s", (int)r, m ? quote(msg).c_str() : "none"); break;
		default: { Common::Value<Str> w = v; Common::Value<Str> x; x = w; w.setValue("other"); v = x; log("copied"); }
		}
	}
}
}
int main(int argc, char **argv) {
	alloc::install();
	suite("results", run, 10000, 1000000, "up to 12 properties with any number of values, asked for by index and name in any case; non-trivial = a property with several values");
	suite("history", history, 20000, 500000, "setting, replacing, copying a value; non-trivial = a value replaced by a reason");
	Options o; o.assumptions = { "the engine's own part (stored values, reasons and messages) is the harness's; it has at least one value where it says there are values", "texts read as integer or decimal are numbers in range", "a null property name is not asked for" };
	return runMain(argc, argv, o);
}
