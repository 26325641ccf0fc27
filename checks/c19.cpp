// C19: the header list.
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
using namespace pbt;
namespace {
struct Source { fiftyoneDegreesCollection c; std::vector<std::vector<char>> items; std::vector<long> ids; long gets = 0, releases = 0; std::set<void *> out; };
void release(fiftyoneDegreesCollectionItem *i) {
	Source *s = (Source *)i->collection; s->releases++;
	CHECK(s->out.erase(i->data.ptr) == 1, "a name item was released that is not held");
	fiftyoneDegreesFree(i->data.ptr);
}
long get(void *st, uint32_t index, fiftyoneDegreesCollectionItem *item) {
	Source *s = (Source *)st;
	if (index >= s->items.size()) return -1;
	// each item is a copy of its own, so a name used after its release is noticed
	byte *p = (byte *)fiftyoneDegreesMalloc(s->items[index].size()); memcpy(p, s->items[index].data(), s->items[index].size());
	item->data.ptr = p; item->data.used = (uint32_t)s->items[index].size(); item->data.allocated = 0; item->collection = &s->c; item->handle = nullptr;
	s->gets++; s->out.insert(p);
	return s->ids[index];
}
std::string low(std::string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
std::vector<std::string> split(const std::string &n) {
	std::vector<std::string> r; std::string c;
	for (char ch : n) { if (ch == '\x1F') { if (!c.empty()) r.push_back(c); c.clear(); } else c += ch; }
	if (!c.empty()) r.push_back(c);
	return r;
}
std::string recase(Src &s, std::string n) { for (auto &c : n) if (s.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); } return n; }
void run(Src &s) {
	alloc::begin();
	Source src; memset(&src.c, 0, sizeof src.c); src.c.release = release;
	static const char *words[] = { "user-agent", "Sec-CH-UA", "sec-ch-ua-mobile", "a", "B", "ab", "x", "User_Agent", "Accept", "host", "\xC4\x80z", "httpx", "http" };
	std::vector<std::string> names;
	bool many = s.chance(1, 100); if (many) label("hundreds of headers");
	size_t n = many ? (size_t)s.range(200, 330) : (size_t)s.small(0, 20);
	for (size_t i = 0; i < n; i++) {
		std::string nm;
		if (!names.empty() && s.chance(1, 6)) nm = recase(s, s.pick(names));
		else {
			int parts = s.chance(1, 2) ? 1 : s.chance(1, 200) ? (int)s.range(250, 300) : (int)s.range(1, 4); if (parts > 4) label("hundreds of parts");
			for (int p = 0; p < parts; p++) {
				if (p) nm += s.chance(1, 8) ? "\x1F\x1F" : "\x1F";
				std::string w = s.chance(1, 5) ? s.chars("abcXYZ-", (size_t)s.range(1, 8)) : words[s.below(13)];
				if (many && s.chance(2, 3)) w += std::to_string(i);
				if (s.chance(1, 400)) { w += s.chars("abcXYZ-", (size_t)s.range(240, 300)); label("long names"); if (s.chance(1, 3)) w += std::string(16000, 'k'); }
				nm += recase(s, w);
			}
			if (s.chance(1, 10)) nm += "\x1F";
			if (s.chance(1, 12)) nm = "\x1F" + nm;
			if (s.chance(1, 25)) nm = s.chance(1, 2) ? "" : "\x1F";
		}
		names.push_back(nm);
		if (nm.size() > 32000) nm.resize(32000);
		names.back() = nm; std::vector<char> it(2 + nm.size() + 1); int16_t sz = (int16_t)(nm.size() + 1); memcpy(it.data(), &sz, 2); memcpy(it.data() + 2, nm.c_str(), nm.size() + 1);
		src.items.push_back(it); src.ids.push_back(s.chance(1, 2) ? (long)s.below(1000) : i > 0 && s.chance(1, 3) ? (long)((uint32_t)src.ids.back() ^ (1u << s.below(32))) : (long)s.below(1ull << 32));
		log("name %s id %ld", quote(nm).c_str(), src.ids.back());
	}
	bool prefixed = s.chance(1, 2);
	fiftyoneDegreesHeaders *h = fiftyoneDegreesHeadersCreate(prefixed, &src, get);
	CHECK(h != nullptr, "headers not created");
	CHECK(src.gets == src.releases && src.out.empty(), "%ld name items taken, %ld released", src.gets, src.releases);
	// the model
	struct M { std::string name; long id; bool ds; std::vector<std::string> segs; };
	std::vector<M> model; std::map<std::string, size_t> by;
	for (size_t i = 0; i < n; i++) { auto sg = split(names[i]); if (names[i].empty() || sg.empty() || by.count(low(names[i]))) continue; by[low(names[i])] = model.size(); model.push_back({ names[i], src.ids[i], true, sg }); }
	size_t ds = model.size(), pseudo = 0;
	for (size_t i = 0; i < ds; i++) { pseudo += model[i].segs.size() > 1; for (auto &g : model[i].segs) if (!by.count(low(g))) { by[low(g)] = model.size(); model.push_back({ g, 0, false, { g } }); } }
	CHECK(h->count <= h->capacity, "%u headers in room for %u", h->count, h->capacity);
	CHECK(h->count == model.size(), "%u unique headers, expected %zu", h->count, model.size());
	CHECK(h->pseudoHeadersCount == pseudo, "%u combined headers, expected %zu", h->pseudoHeadersCount, pseudo);
	CHECK(h->expectUpperPrefixedHeaders == prefixed, "prefix flag");
	std::set<std::string> seen;
	for (uint32_t i = 0; i < h->count; i++) {
		fiftyoneDegreesHeader &x = h->items[i];
		std::string nm(x.name, x.nameLength);
		CHECK(strlen(x.name) == x.nameLength, "name length of %s is %zu", quote(x.name).c_str(), x.nameLength);
		CHECK(seen.insert(low(nm)).second, "header %s appears twice", quote(nm).c_str());
		auto it = by.find(low(nm));
		CHECK(it != by.end(), "header %s was invented", quote(nm).c_str());
		M &m = model[it->second];
		CHECK(x.isDataSet == m.ds, "header %s origin", quote(nm).c_str());
		if (m.ds) CHECK((long)x.uniqueId == m.id && nm == m.name, "header %s has id %u, expected %ld", quote(nm).c_str(), x.uniqueId, m.id);
		CHECK(x.segments != nullptr && x.segments->count == m.segs.size(), "header %s has %u segments, expected %zu", quote(nm).c_str(), x.segments ? x.segments->count : 0, m.segs.size());
		for (size_t k = 0; k < m.segs.size(); k++) {
			std::string sg(x.segments->items[k].segment, x.segments->items[k].length);
			CHECK(low(sg) == low(m.segs[k]), "segment %zu of %s is %s", k, quote(nm).c_str(), quote(sg).c_str());
		}
		CHECK(fiftyoneDegreesHeadersIsPseudo(x.name) == (m.name.find('\x1F') != std::string::npos), "combined or not: %s", quote(nm).c_str());
	}
	// lookups
	auto lookup = [&](const std::string &q, const std::string &key) {
		char *p = (char *)malloc(q.size() ? q.size() : 1); memcpy(p, q.data(), q.size());
		int i = fiftyoneDegreesHeaderGetIndex(h, p, q.size());
		free(p);
		bool present = by.count(low(key)) > 0;
		CHECK((i >= 0) == present, "looking up %s %s", quote(q).c_str(), present ? "finds nothing" : "finds a header");
		if (i >= 0) CHECK((uint32_t)i < h->count && low(std::string(h->items[i].name, h->items[i].nameLength)) == low(key), "looking up %s finds %s", quote(q).c_str(), h->items[i].name);
		fiftyoneDegreesEvidenceKeyValuePair pair; memset(&pair, 0, sizeof pair); pair.field = q.c_str();
		if (q.find('\0') == std::string::npos) CHECK(fiftyoneDegreesHeadersIsHttp(h, &pair) == present, "IsHttp of %s", quote(q).c_str());
	};
	if (!model.empty() && s.chance(1, 30)) { // a name so much longer that its length looks the same in fewer bits
		auto &m = s.pick(model); std::string q = m.name; q.resize(q.size() + (s.chance(1, 4) ? 65536 : 256), 'a'); label("long name looked up"); lookup(q, q);
	}
	for (auto &m : model) {
		std::string q = recase(s, m.name);
		lookup(q, m.name);
		if (prefixed) { lookup("HTTP_" + q, m.name); label("prefixed lookups"); }
		else lookup("HTTP_" + q, "HTTP_" + m.name);
	}
	for (int k = 0; k < 6; k++) {
		std::string q = s.chance(1, 3) ? s.chars("abcXYZ-_\x1F", (size_t)s.range(1, 8)) : model.empty() ? "q" : s.pick(model).name;
		switch (s.below(5)) { case 0: q += "x"; break; case 1: if (q.size() > 1) q.pop_back(); break; case 2: q = q.substr(q.size() / 2); break; case 3: q = "HTTP" + q; break; default: break; }
		if (q.empty()) q = "zz";
		if (prefixed && low(q.substr(0, 5)) == "http_") { if (q.size() == 5) continue; lookup(q, q.substr(5)); } else lookup(q, q);
	}
	for (size_t i = 0; i < ds; i++) {
		fiftyoneDegreesHeader *x = fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, (fiftyoneDegreesHeaderID)model[i].id);
		CHECK(x != nullptr && x->uniqueId == (uint32_t)model[i].id && x->isDataSet, "id %ld not found", model[i].id);
	}
	for (int k = 0; k < 4; k++) { // only headers which are parts of others have no id of their own: theirs is zero
		uint32_t id = ds > 0 ? (uint32_t)model[s.below(ds)].id ^ (1u << s.below(32)) : (uint32_t)s.below(1ull << 32); bool known = id == 0; for (size_t i = 0; i < ds; i++) known |= (uint32_t)model[i].id == id;
		if (!known) CHECK(fiftyoneDegreesHeadersGetHeaderFromUniqueId(h, id) == nullptr, "a header has id %u", id);
	}
	int room = (int)s.below(1 << 20); CHECK(fiftyoneDegreesHeadersSize(room) >= sizeof(fiftyoneDegreesHeaders) + (size_t)room * sizeof(fiftyoneDegreesHeader) && fiftyoneDegreesHeadersSize(room + 1) == fiftyoneDegreesHeadersSize(room) + sizeof(fiftyoneDegreesHeader), "%d headers need %zu bytes", room, fiftyoneDegreesHeadersSize(room));
	fiftyoneDegreesHeadersFree(h);
	alloc::expectNone("after the headers were freed");
	if (ds < n) label("duplicates or empty names");
	if (pseudo > 0 && model.size() > ds) { nontrivial(); label("parts added"); }
}
}
int main(int argc, char **argv) {
	suite("headers", run, 80000, 2500000, "up to 20 names with duplicates, combined names, empty parts and odd separators; non-trivial = a combined header whose parts had to be added");
	Options o; o.assumptions = { "no header is itself called HTTP_something when the prefix is enabled" };
	return runMain(argc, argv, o);
}
