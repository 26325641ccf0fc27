// C15: YAML files.
#include "coll.hpp"
#include "fiftyone.h"
using namespace pbt;
static int readsLeft = -1; static size_t readShort = 0; static int readFaults = 0;
extern "C" size_t __real_fread(void *, size_t, size_t, FILE *);
extern "C" size_t __wrap_fread(void *p, size_t size, size_t n, FILE *f) {
	if (readsLeft < 0 || readsLeft-- > 0) return __real_fread(p, size, n, f);
	readFaults++; size_t got = size * n > readShort ? readShort : 0;
	got = __real_fread(p, 1, got, f) / (size ? size : 1);
	f->_flags |= 0x20; readsLeft = 0;
	return got;
}
namespace {
typedef std::string Str;
typedef std::vector<std::pair<Str, Str>> Doc;
struct Out { std::vector<Doc> docs; fiftyoneDegreesKeyValuePair *pairs; uint16_t size; std::vector<size_t> kl, vl; };
void onDoc(fiftyoneDegreesKeyValuePair *p, uint16_t count, void *st) {
	Out *o = (Out *)st; CHECK(p == o->pairs, "other pairs were delivered"); CHECK(count > 0 && count <= o->size, "%u pairs in an array of %u", count, o->size);
	Doc d; for (uint16_t i = 0; i < count; i++) {
		CHECK(p[i].keyLength == o->kl[i] && p[i].valueLength == o->vl[i], "the length of a buffer was changed");
		CHECK(memchr(p[i].key, 0, p[i].keyLength) != nullptr, "key %u is not terminated", i); CHECK(memchr(p[i].value, 0, p[i].valueLength) != nullptr, "value %u is not terminated", i);
		d.push_back({ p[i].key, p[i].value });
	}
	o->docs.push_back(d); if (o->docs.size() > 100000) fail("documents without end");
}
// buffers of exactly the given sizes
struct Pairs {
	std::vector<fiftyoneDegreesKeyValuePair> v; fiftyoneDegreesKeyValuePair *p = nullptr;
	void make(const std::vector<size_t> &k, const std::vector<size_t> &val) {
		p = (fiftyoneDegreesKeyValuePair *)malloc(k.size() * sizeof *p);
		for (size_t i = 0; i < k.size(); i++) { fiftyoneDegreesKeyValuePair x; x.key = (char *)malloc(k[i]); memset(x.key, 'Z', k[i]); x.keyLength = k[i]; x.value = (char *)malloc(val[i]); memset(x.value, 'Z', val[i]); x.valueLength = val[i]; p[i] = x; v.push_back(x); }
	}
	~Pairs() { for (auto &x : v) { free(x.key); free(x.value); } free(p); }
};
Str path() { return G().scratch + "/y" + std::to_string(getpid()); }
void spit(const Str &c) { FILE *f = fopen(path().c_str(), "wb"); if (!f || fwrite(c.data(), 1, c.size(), f) != c.size()) { perror("scratch"); abort(); } fclose(f); }
fiftyoneDegreesStatusCode run(Src &s, Out &o, size_t bufferSize, int limit) {
	char *buffer = (char *)malloc(bufferSize ? bufferSize : 1); memset(buffer, '-', bufferSize);
	fiftyoneDegreesStatusCode st = limit == -1 && s.chance(1, 2) ? fiftyoneDegreesYamlFileIterate(path().c_str(), buffer, bufferSize, o.pairs, o.size, &o, onDoc) : fiftyoneDegreesYamlFileIterateWithLimit(path().c_str(), buffer, bufferSize, o.pairs, o.size, limit, &o, onDoc);
	free(buffer); return st;
}
Str shown(const Doc &d) { Str r; for (auto &p : d) r += quote(p.first) + "=" + quote(p.second) + " "; return r; }
void documents(Src &s) {
	alloc::begin(); int fds = coll::openFds(); std::vector<Doc> docs; std::vector<std::vector<bool>> quotedOf; Str text; size_t n = (size_t)s.small(0, 7), most = 0, longest = 0; Str nl = s.chance(1, 3) ? "\r\n" : s.chance(1, 12) ? "\r" : "\n"; bool prefixed = true;
	int large = s.chance(1, 80) ? (int)s.range(1, 3) : s.chance(1, 2000) ? 4 : 0; if (large == 1) n = (size_t)s.range(250, 400); else if (large && n == 0) n = 1;
	static const char *kind[] = { "", "hundreds of documents", "hundreds of pairs", "texts of hundreds of bytes", "texts of tens of thousands of bytes" }; if (large) label(kind[large]);
	auto blank = [&] { while (s.chance(1, 8)) text += nl; };
	blank(); if (n == 1 && s.chance(1, 4)) prefixed = false; // a single document does not need its start
	for (size_t i = 0; i < n; i++) {
		if (i > 0 || prefixed) text += "---" + nl; blank(); Doc d; std::vector<bool> quoted;
		auto longer = [&](size_t m) { return large < 3 || !s.chance(1, 6) ? m : (size_t)(large == 3 ? s.range(250, 700) : s.range(65500, 67000)); };
		for (size_t k = large == 2 && s.chance(1, 2) ? (size_t)s.range(250, 500) : (size_t)s.small(1, large == 1 ? 3 : 12); k-- > 0;) {
			Str key = s.chars("abcXYZ019", 1); if (size_t m = longer(0)) key += coll::plentyText(s, m); else key += s.chars("abzAZ09.", (size_t)s.small(0, s.chance(1, 8) ? 80 : 12)); if (s.chance(1, 10)) { if (s.chance(1, 4)) key.clear(); if (s.chance(3, 4)) key.insert(0, s.chance(1, 2) ? "." : ".."); }
			Str v = s.chars(s.chance(1, 2) ? "abc012." : "abc :-.'\"(;)/\x80\xFF", (size_t)s.small(0, s.chance(1, 8) ? 120 : 20)); if (size_t m = longer(0)) v = coll::plentyText(s, m); bool q = s.chance(1, 3); Str line = key + ":";
			if (!q && !v.empty() && v[0] == '\'') v[0] = 'q';
			if (q) line += " '" + v + "'"; else if (!v.empty() || s.chance(1, 2)) line += " " + v;
			longest = std::max(longest, line.size()); text += line + nl; blank(); d.push_back({ key, v }); quoted.push_back(q); if (s.chance(1, 100)) label("quoted");
		}
		most = std::max(most, d.size()); docs.push_back(d); quotedOf.push_back(quoted);
	}
	switch (s.below(4)) { case 0: text += "..." + nl; if (s.chance(1, 2)) text += "after: the end" + nl + "---" + nl; break; case 1: if (n > 0) text += "---" + nl; break; case 2: if (n > 0 && text.size() > nl.size() && text.compare(text.size() - nl.size(), nl.size(), nl) == 0 && s.chance(1, 2)) text.resize(text.size() - nl.size()); break; default: break; }
	log("%s", quote(text.substr(0, 20000)).c_str()); spit(text);
	bool cut = s.chance(1, 3), few = s.chance(1, 6); size_t size = few ? (size_t)s.range(1, (int64_t)most + 1) : most + (size_t)s.range(1, 3); if (s.chance(1, 5)) size = std::max<size_t>(1, few ? size : most);
	std::vector<size_t> kl(size, 1), vl(size, 1);
	for (auto &d : docs) for (size_t i = 0; i < d.size() && i < size; i++) { kl[i] = std::max(kl[i], d[i].first.size() + 1); vl[i] = std::max(vl[i], d[i].second.size() + 1 + (size_t)s.below(2)); }
	for (size_t i = 0; i < size; i++) { if (cut) { if (s.chance(1, 3)) kl[i] = (size_t)s.range(1, (int64_t)kl[i]); if (s.chance(1, 3)) vl[i] = (size_t)s.range(1, (int64_t)vl[i]); } else { kl[i] += (size_t)s.below(2); vl[i] += (size_t)s.below(2); } }
	Pairs pairs; pairs.make(kl, vl); Out o; o.pairs = pairs.p; o.size = (uint16_t)size; o.kl = kl; o.vl = vl;
	size_t bufferSize = (size_t)s.pick(std::vector<int>{ 1, 2, 3, 7, 16, 64, 1024, 4096 }); if (s.chance(1, 3)) bufferSize = (size_t)s.range(1, (int64_t)text.size() + 2);
	int limit = s.chance(1, 3) ? (int)s.range(0, (int64_t)n + 1) : -(int)s.range(1, 2); bool fault = s.chance(1, 8); log("buffer %zu pairs %zu limit %d%s", bufferSize, size, limit, fault ? " with a failing read" : "");
	if (fault) { readsLeft = (int)s.below(text.size() / bufferSize + 2); readShort = (size_t)s.below(5); readFaults = 0; }
	auto st = run(s, o, bufferSize, limit); bool failed = fault && readFaults > 0; readsLeft = -1;
	size_t want = limit < 0 ? n : std::min<size_t>(n, (size_t)limit);
	if (failed) { label("read failed"); CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS, "a failed read is not reported"); CHECK(o.docs.size() <= want, "more documents than the file has"); }
	else { CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS, "status %d", (int)st); CHECK(o.docs.size() == want, "%zu documents, expected %zu", o.docs.size(), want); }
	for (size_t i = 0; i < o.docs.size(); i++) {
		size_t k = std::min(docs[i].size(), size); CHECK(o.docs[i].size() == k, "document %zu has %zu pairs, expected %zu: %s", i, o.docs[i].size(), k, shown(o.docs[i]).c_str()); if (k < docs[i].size()) label("too many pairs");
		for (size_t j = 0; j < k; j++) {
			Str key = docs[i][j].first.substr(0, kl[j] - 1), v = docs[i][j].second, w = v.substr(0, vl[j] - 1), w2 = w; bool q = quotedOf[i][j];
			if (q && vl[j] - 1 < v.size() + 1 && !w2.empty() && w2.back() == '\'') w2.pop_back();
			if (key.size() < docs[i][j].first.size() || w.size() < v.size()) label("cut");
			CHECK(o.docs[i][j].first == key, "key %zu of document %zu is %s, expected %s", j, i, quote(o.docs[i][j].first).c_str(), quote(key).c_str());
			CHECK(o.docs[i][j].second == w || o.docs[i][j].second == w2, "value %zu of document %zu is %s, expected %s", j, i, quote(o.docs[i][j].second).c_str(), quote(w).c_str());
		}
	}
	if (n > 1 && bufferSize < text.size()) nontrivial();
	CHECK(coll::openFds() == fds, "%d descriptors left open", coll::openFds() - fds); alloc::expectNone("after reading"); unlink(path().c_str());
}
void anything(Src &s) {
	int fds = coll::openFds();
	Str text; for (size_t k = (size_t)s.small(0, 40); k-- > 0;) switch (s.weighted({ 4, 2, 2, 3, 2, 2, 1, 1 })) { case 0: text += "\n"; break; case 1: text += "---"; break; case 2: text += s.chars("-", (size_t)s.range(1, 5)); break; case 3: text += s.chars(":' ab.-", (size_t)s.range(1, 9)); break; case 4: text += "a: b"; break; case 5: text += ": '"; break; case 6: text += "..."; text.erase(text.size() - (size_t)s.below(3)); break; default: text += s.bytes((size_t)s.below(9)); }
	log("%s", quote(text).c_str()); spit(text); size_t size = (size_t)s.range(1, 6); std::vector<size_t> kl, vl; for (size_t i = 0; i < size; i++) { kl.push_back((size_t)s.range(1, 6)); vl.push_back((size_t)s.range(1, 6)); }
	Pairs pairs; pairs.make(kl, vl); Out o; o.pairs = pairs.p; o.size = (uint16_t)size; o.kl = kl; o.vl = vl; size_t b = (size_t)s.range(1, 20); int limit = (int)s.range(-1, 4);
	auto st = run(s, o, b, limit); CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS, "status %d", (int)st); if (limit >= 0) CHECK(o.docs.size() <= (size_t)limit, "%zu documents with a limit of %d", o.docs.size(), limit);
	if (o.docs.size() > 1) nontrivial();
	// what is delivered depends on the text alone
	Out o2 = o; o2.docs.clear(); Pairs again; again.make(kl, vl); o2.pairs = again.p; run(s, o2, (size_t)s.range(1, 300), limit);
	CHECK(o.docs == o2.docs, "another buffer or other earlier contents gave other documents: %s / %s", o.docs.empty() ? "" : shown(o.docs[0]).c_str(), o2.docs.empty() ? "" : shown(o2.docs[0]).c_str());
	CHECK(coll::openFds() == fds, "%d descriptors left open", coll::openFds() - fds); unlink(path().c_str());
}
void many(Src &s) { // more pairs than a document array can have, and files which are not there
	size_t lines = (size_t)s.pick(std::vector<int>{ 32766, 32767, 32768, 32769, 40000, 65535, 65536, 65537, 70000 }); Str text = "---\n"; for (size_t i = 0; i < lines; i++) text += "a: b\n"; spit(text); uint16_t size = (uint16_t)s.range(1, 3); if (s.chance(1, 3)) size = (uint16_t)s.range(32766, 32770); log("%zu pairs, room for %u", lines, size);
	Pairs pairs; std::vector<size_t> l(size, 4); pairs.make(l, l); Out o; o.pairs = pairs.p; o.size = size; o.kl = o.vl = l; auto st = run(s, o, 4096, -1); CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS && o.docs.size() == 1 && o.docs[0].size() == std::min<size_t>(size, lines), "%zu documents", o.docs.size());
	for (auto &p : o.docs[0]) CHECK(p.first == "a" && p.second == "b", "another pair"); nontrivial();
	unlink(path().c_str()); char b[16]; CHECK(fiftyoneDegreesYamlFileIterate(path().c_str(), b, sizeof b, o.pairs, o.size, &o, onDoc) == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND && o.docs.size() == 1, "a missing file");
	CHECK(fiftyoneDegreesYamlFileIterate(G().scratch.c_str(), b, sizeof b, o.pairs, o.size, &o, onDoc) != FIFTYONE_DEGREES_STATUS_SUCCESS && o.docs.size() == 1, "a directory was read");
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Buffers hold at least one character.", "Unquoted values do not start with a quote.", "Documents have at least one pair." };
	suite("documents", documents, 60000, 8000000, "several documents in a file larger than the buffer");
	suite("anything", anything, 60000, 8000000, "several documents were found");
	suite("many", many, 20, 2000, "all");
	return runMain(argc, argv, o);
}
