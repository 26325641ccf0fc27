// A random data set of strings, components, properties, values and profiles, with the
// collections that hold it.
#pragma once
#include "coll.hpp"
#include <arpa/inet.h>

namespace model {
using namespace coll;
enum { STRINGS, COMPONENTS, PROPERTIES, VALUES, PROFILES, OFFSETS, COLLECTIONS };
struct Val { Bytes stored; std::string text; uint32_t prop; uint32_t nameOffset, descOffset, urlOffset; };
struct Prop { std::string name; uint8_t comp, type, isList; uint32_t first, last; std::string desc, cat, url; uint32_t def; uint32_t nameOff, descOff, catOff, urlOff; int kind; };
struct Prof { uint32_t id; uint8_t comp; std::vector<uint32_t> values; uint32_t offset; };
struct Comp { uint8_t id; std::string name; uint32_t nameOff; uint32_t defProfile; std::vector<std::pair<uint32_t, uint32_t>> pairs; };
struct Set {
	std::vector<Val> values; std::vector<Prop> props; std::vector<Prof> profs; std::vector<Comp> comps; // profs sorted by id
	Body body[COLLECTIONS]; std::map<Bytes, uint32_t> pool; std::map<uint32_t, Bytes> strings;
	uint32_t str(const std::string &t) { Bytes b = t; auto it = pool.find(b); if (it != pool.end()) return it->second; uint32_t o = addString(body[STRINGS], b); pool[b] = o; strings[o] = b + std::string(1, '\0'); return o; }
	uint32_t raw(const Bytes &t) { Bytes k = t + "#raw"; auto it = pool.find(k); if (it != pool.end()) return it->second; Bytes b; put16(b, (int16_t)t.size()); b += t; uint32_t o = add(body[STRINGS], b); pool[k] = o; strings[o] = t; return o; }
};
inline bool &longWords() { static bool x; return x; }
inline std::string word(pbt::Src &s, size_t max) { std::string w; if (longWords() && s.chance(1, 4)) max = (size_t)s.range(250, s.chance(1, 10) ? 32000 : 600); w = s.chars("abAB_zZ~", 1); w += s.chars("abcAB01._-~\xc3\xa9 ", (size_t)s.small(0, (int64_t)max)); return w; }
inline void putFloat(Bytes &b, float f) { b.append((char *)&f, 4); }
inline Set make(pbt::Src &s, bool special = true) {
	Set d;
	d.body[STRINGS] = variableData(readString);
	d.str(""); // so that zero is an ordinary offset
	size_t nc = (size_t)s.range(1, 4), np = (size_t)s.small(0, 9);
	int large = s.chance(1, 60) ? (int)s.range(1, 6) : s.chance(1, 800) ? 7 : 0; // one of them at a time
	static const char *kind[] = { "", "hundreds of components", "hundreds of properties", "hundreds of values", "hundreds of profiles", "hundreds of pairs", "long names", "tens of thousands of values" };
	if (large) pbt::label(kind[large]);
	if (large == 1) nc = (size_t)s.range(130, 245);
	if (large == 2) np = (size_t)s.range(250, 400);
	if (large == 3 || large == 7) np = (size_t)s.range(1, 4);
	longWords() = large == 6;
	for (size_t i = 0; i < nc; i++) { Comp c; c.id = (uint8_t)(10 + i); c.name = "comp" + word(s, 6); c.nameOff = d.str(c.name); d.comps.push_back(c); }
	std::set<std::string> names;
	for (size_t i = 0; i < np; i++) {
		Prop p; do p.name = word(s, 8) + (large == 2 ? std::to_string(i) : ""); while (!names.insert(p.name).second);
		p.comp = (uint8_t)s.below(nc); p.type = (uint8_t)s.below(9); p.isList = (uint8_t)s.below(2); p.kind = 0;
		size_t nv = (size_t)s.small(0, s.chance(1, 8) ? 60 : 7);
		if (large == 2) nv = (size_t)s.below(3);
		if (large == 3 && (i == 0 || s.chance(1, 2))) nv = (size_t)s.range(250, 600);
		bool numbered = large == 7 && (i == 0 || s.chance(1, 3)); if (numbered) nv = (size_t)s.range(65500, 67000);
		std::vector<std::pair<Bytes, std::string>> vals;
		if (numbered) { std::string w = word(s, 3); for (size_t k = 0; k < nv; k++) { std::string v = w + std::to_string(k); vals.push_back({ v, v }); } }
		else if (special && s.chance(1, 5)) { p.kind = 1; p.type = FIFTYONE_DEGREES_PROPERTY_VALUE_TYPE_COORDINATE; std::set<Bytes> seen;
			for (size_t k = 0; k < nv; k++) { float la = (float)s.range(-9000, 9000) / 64, lo = (float)s.range(-18000, 18000) / 128; if (s.chance(1, 3) && !vals.empty()) memcpy(&la, vals[0].first.data() + 1, 4);
				Bytes b(1, '\1'); putFloat(b, la); putFloat(b, lo); if (!seen.insert(b).second) continue; char t[80]; snprintf(t, sizeof t, "%.9g,%.9g", la, lo); vals.push_back({ b, t }); } }
		else if (special && s.chance(1, 5)) { p.kind = 2; p.type = FIFTYONE_DEGREES_PROPERTY_VALUE_TYPE_IP_ADDRESS; std::set<Bytes> seen;
			for (size_t k = 0; k < nv; k++) { bool six = s.chance(1, 2); Bytes a = s.bytes(six ? 16 : 4); if (s.chance(1, 2)) for (size_t q = 0; q + 1 < a.size(); q++) a[q] = six ? 0x20 : 0x0a; if (!vals.empty() && s.chance(1, 4)) { const Bytes &o = vals[(size_t)s.below(vals.size())].first; for (size_t q = 0; q < 4; q++) a[q] = o[q + 1]; } if (!seen.insert(a).second) continue; char t[80]; inet_ntop(six ? AF_INET6 : AF_INET, a.data(), t, sizeof t); vals.push_back({ Bytes(1, '\2') + a, t }); } 
			}
		else { std::set<std::string> seen; for (size_t k = 0; k < nv; k++) { std::string w = word(s, 6) + (large == 3 && s.chance(3, 4) ? std::to_string(k) : ""); if (seen.insert(w).second) vals.push_back({ w, w }); } }
		std::sort(vals.begin(), vals.end(), [] (auto &a, auto &b) { return std::lexicographical_compare(a.first.begin(), a.first.end(), b.first.begin(), b.first.end(), [] (char x, char y) { return (unsigned char)x < (unsigned char)y; }); });
		p.first = vals.empty() ? UINT32_MAX : (uint32_t)d.values.size();
		for (auto &v : vals) { Val x; x.prop = (uint32_t)i; x.stored = v.first; x.text = v.second; x.nameOffset = p.kind == 0 ? d.str(v.first) : d.raw(v.first); if (numbered) { x.descOffset = x.nameOffset; x.urlOffset = 0; } else { x.descOffset = d.str(word(s, 4)); x.urlOffset = d.str(word(s, 4)); } d.values.push_back(x); }
		p.last = vals.empty() ? UINT32_MAX : (uint32_t)d.values.size() - 1;
		p.def = p.first; p.desc = word(s, 9); p.cat = word(s, 3); p.url = word(s, 9);
		p.nameOff = d.str(p.name); p.descOff = d.str(p.desc); p.catOff = d.str(p.cat); p.urlOff = d.str(p.url);
		d.props.push_back(p);
	}
	longWords() = false; size_t npr = large == 4 ? (size_t)s.range(250, 500) : (size_t)s.small(0, large < 7 && s.chance(1, 8) ? 60 : 12); uint32_t id = (uint32_t)s.below(5); bool wide = s.chance(1, 4);
	d.body[PROFILES] = variableData(readProfile);
	for (size_t i = 0; i < npr; i++) {
		Prof p; id += 1 + (uint32_t)(wide ? s.below(UINT32_MAX / (npr + 1) - 2) : s.below(3)); p.id = id; p.comp = (uint8_t)s.below(nc);
		uint32_t dens = (uint32_t)s.range(1, 4);
		uint64_t seed = s.below(1ull << 32);
		if (large == 7) { for (uint32_t v = 0; v < d.values.size(); v++) if (d.props[d.values[v].prop].comp == p.comp && pbt::mix(seed + v) % 4 < dens) p.values.push_back(v); }
		else for (uint32_t v = 0; v < d.values.size(); v++) if (d.props[d.values[v].prop].comp == p.comp && s.chance(dens, 4)) p.values.push_back(v);
		d.profs.push_back(p);
	}
	std::vector<size_t> order; for (size_t i = 0; i < npr; i++) order.push_back(i);
	for (size_t i = 0; i + 1 < npr; i++) std::swap(order[i], order[i + (size_t)s.below(npr - i)]); // profiles need not lie in id order
	for (size_t i : order) { Bytes b; b.push_back((char)d.profs[i].comp); put32(b, d.profs[i].id); put32(b, (uint32_t)d.profs[i].values.size()); for (auto v : d.profs[i].values) put32(b, v); d.profs[i].offset = add(d.body[PROFILES], b); }
	d.body[COMPONENTS] = variableData(readComponent);
	for (auto &c : d.comps) {
		size_t n = large == 5 && s.chance(1, 2) ? (size_t)(s.chance(1, 10) ? s.range(32768, 65400) : s.range(250, 600)) : (size_t)s.small(0, 5);
		if (n > 600) { uint64_t seed = s.below(1ull << 32); for (size_t i = 0; i < n; i++) c.pairs.push_back({ (uint32_t)pbt::mix(seed + i), (uint32_t)i }); }
		else for (size_t i = 0; i < n; i++) c.pairs.push_back({ (uint32_t)s.below(100), (uint32_t)s.below(100) });
		c.defProfile = npr ? d.profs[(size_t)s.below(npr)].offset : 0;
		Bytes b; b.push_back((char)c.id); put32(b, c.nameOff); put32(b, c.defProfile); put16(b, (int16_t)n); for (auto &p : c.pairs) { put32(b, p.first); put32(b, p.second); } add(d.body[COMPONENTS], b);
	}
	Bytes pb; for (auto &p : d.props) {
		pb.push_back((char)p.comp); pb.push_back(3); pb.push_back(1); pb.push_back((char)p.isList); pb.push_back(1); pb.push_back(0); pb.push_back(1); pb.push_back((char)p.type);
		for (uint32_t x : { p.def, p.nameOff, p.descOff, p.catOff, p.urlOff, p.first, p.last, 0u, 0u }) put32(pb, x); }
	d.body[PROPERTIES] = fixedData(sizeof(fiftyoneDegreesProperty), (uint32_t)np, s.chance(1, 2), pb);
	Bytes vb; for (auto &v : d.values) { put16(vb, (int16_t)v.prop); put32(vb, v.nameOffset); put32(vb, v.descOffset); put32(vb, v.urlOffset); }
	d.body[VALUES] = fixedData(sizeof(fiftyoneDegreesValue), (uint32_t)d.values.size(), s.chance(1, 2), vb);
	Bytes ob; for (auto &p : d.profs) { put32(ob, p.id); put32(ob, p.offset); }
	d.body[OFFSETS] = fixedData(sizeof(fiftyoneDegreesProfileOffset), (uint32_t)npr, s.chance(1, 2), ob);
	return d;
}
// The collections opened, each in its own way.
struct Opened {
	Source src; C *c[COLLECTIONS]; How how[COLLECTIONS]; size_t pos[COLLECTIONS]; size_t live = 0;
	void open(pbt::Src &s, const Set &d, bool memoryOnly = false) {
		std::vector<int> order = { 0, 1, 2, 3, 4, 5 };
		for (size_t i = 0; i < 5; i++) std::swap(order[i], order[i + (size_t)s.below(6 - i)]);
		std::vector<Body> v; for (size_t i = 0; i < 6; i++) { v.push_back(d.body[order[i]]); pos[order[i]] = i; }
		src.build(s, v); src.open((uint16_t)s.range(1, 3));
		bool uniform = s.chance(1, 3); How u = config(s, 6);
		for (int i = 0; i < COLLECTIONS; i++) {
			how[i] = uniform ? u : config(s, (uint32_t)d.body[i].items.size());
			if (memoryOnly) how[i] = How();
			if (how[i].cached()) { how[i].concurrency = 1; how[i].capacity = std::max<uint32_t>(how[i].capacity, i == COMPONENTS ? (uint32_t)d.comps.size() + 2 : i == VALUES || i == STRINGS ? 4 : 3); }
			c[i] = src.make(pos[i], how[i]);
			CHECK(c[i] != nullptr, "valid collection %d refused (%s)", i, how[i].text().c_str());
		}
		live = alloc::live();
	}
	bool anyCached() const { for (auto &h : how) if (h.cached()) return true; return false; }
	void close(const Set &d) {
		for (int i = 0; i < COLLECTIONS; i++) if (how[i].cached()) { // nothing is still held
			std::vector<std::unique_ptr<Item>> held;
			for (size_t k = 0; k < d.body[i].items.size() && held.size() < how[i].holdable(); k++) {
				std::unique_ptr<Item> it(new Item); resetItem(it.get()); FIFTYONE_DEGREES_EXCEPTION_CREATE
				CHECK(c[i]->get(c[i], d.body[i].items[k].key, it.get(), exception) != nullptr, "items of collection %d are still held: only %zu of %u can be taken", i, held.size(), how[i].holdable());
				held.push_back(std::move(it));
			}
			for (auto &it : held) release(c[i], it.get());
		}
		checkPool(src, "at the end");
		for (auto *x : c) x->freeCollection(x);
		src.close();
	}
};
} // namespace model
