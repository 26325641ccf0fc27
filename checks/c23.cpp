// C23: loading, reloading and releasing data sets.
#include "probe.hpp"
namespace {
void history(Src &s) {
	alloc::begin(); int fds = coll::openFds(); char before[4096]; if (getcwd(before, sizeof before) == nullptr) abort();
	Str root = G().scratch + "/d" + std::to_string(getpid()); clear(root); mkdir(root.c_str(), 0700);
	for (auto d : { "/cwd", "/tmp1", "/tmp2", "/data" }) mkdir((root + d).c_str(), 0700);
	if (chdir((root + "/cwd").c_str()) != 0) abort();
	std::vector<Str> tempDirs; std::vector<Str> watched; bool cwdTemp = s.chance(1, 4);
	if (cwdTemp) watched.push_back(root + "/cwd"); else for (size_t i = 0, n = (size_t)s.range(1, 3); i < n; i++) { int k = (int)s.below(3); tempDirs.push_back(root + (k == 0 ? "/missing" : k == 1 ? "/tmp1" : "/tmp2")); }
	bool anyDir = cwdTemp; for (auto &d : tempDirs) anyDir |= d.find("missing") == Str::npos;
	for (auto d : { "/tmp1", "/tmp2" }) watched.push_back(root + d);
	std::vector<const char *> dirPtr; for (auto &d : tempDirs) dirPtr.push_back(d.c_str());
	ProbeConfig c; memset(&c, 0, sizeof c); c.b.allInMemory = s.chance(1, 3); c.b.usesUpperPrefixedHeaders = s.chance(1, 3); c.b.freeData = s.chance(1, 2); c.b.useTempFile = s.chance(1, 2); c.b.reuseTempFile = s.chance(1, 2);
	c.b.tempDirs = dirPtr.empty() ? nullptr : dirPtr.data(); c.b.tempDirCount = (int)dirPtr.size(); c.concurrency = (uint16_t)s.range(2, 5); c.overridable = s.chance(1, 2);
	auto storage = [&](fiftyoneDegreesCollectionConfig &x) { x.loaded = s.chance(1, 3) ? (uint32_t)s.below(8) : 0; if (s.chance(1, 2)) { x.concurrency = 4; x.capacity = s.chance(1, 4) ? 3000 : 40 + (uint32_t)s.below(9); } };
	storage(c.strings); storage(c.numbers); hundreds = (c.strings.capacity == 0 || c.strings.capacity >= 3000) && (c.numbers.capacity == 0 || c.numbers.capacity >= 3000); compared = s.chance(1, 2) ? -1 : 12; // the serial is within
	bool temp = c.b.useTempFile, reuse = temp && c.b.reuseTempFile;
	log("%s%s%s%s, %u handles, loaded %u/%u capacity %u/%u%s", c.b.allInMemory ? "in memory" : "streamed", temp ? ", temporary copy" : "", reuse ? " used again" : "", c.b.freeData ? ", data freed" : "", c.concurrency, c.strings.loaded, c.numbers.loaded, c.strings.capacity, c.numbers.capacity, cwdTemp ? ", working directory" : "");
	// files which look like copies of others
	std::map<Str, Str> foreign; if (s.chance(1, 2)) for (auto &w : watched) if (s.chance(1, 2)) { Str p = w + (s.chance(1, 2) ? "/master0-77-ABCDEFGHIJKLMNOPQRST" : "/other.dat"); foreign[p] = "something else"; spit(p, foreign[p]); }
	uint32_t serial = 0; Content base = make(s, ++serial, nullptr), last = base;
	size_t files = 0; auto fresh = [&] { return root + "/data/master" + std::to_string(files++) + (s.chance(1, 2) ? ".dat" : ""); };
	struct Loaded { Content content; Str path; bool fromFile = false; Str tempFile; void *blob = nullptr; int users = 0; };
	std::map<DataSetProbe *, Loaded> sets; std::vector<std::pair<DataSetProbe *, Content>> held;
	fiftyoneDegreesResourceManager manager; bool managed = false; DataSetProbe *active = nullptr; size_t reloads = 0, refusals = 0;
	std::map<Str, Str> masters;
	auto check = [&](DataSetProbe *d, const Content &want, const char *when) {
		CHECK(d->serial == want.serial, "%s: the data set is number %u, expected %u", when, d->serial, want.serial);
		CHECK(d->properties == want.properties.size() && d->headers == want.headers.size(), "%s: other counts", when);
		FIFTYONE_DEGREES_EXCEPTION_CREATE
		for (uint32_t i = 0; i < d->properties + d->headers; i++) {
			fiftyoneDegreesCollectionItem it; fiftyoneDegreesDataReset(&it.data); it.handle = nullptr; it.collection = nullptr;
			const Str &w = i < d->properties ? want.properties[i] : want.headers[i - d->properties];
			auto *t = stringAt(d, i, &it, exception); CHECK(t != nullptr && FIFTYONE_DEGREES_EXCEPTION_OKAY, "%s: name %u can not be read, status %d", when, i, (int)exception->status);
			CHECK(w == &t->value, "%s: name %u is %s, expected %s", when, i, quote(&t->value).c_str(), quote(w).c_str()); coll::release(d->strings, &it);
		}
		auto *a = d->b.b.available; CHECK(a != nullptr && a->count == base.properties.size(), "%s: %u properties are available, expected %zu", when, a ? a->count : 0, base.properties.size());
		for (auto &p : base.properties) { int i = fiftyoneDegreesPropertiesGetPropertyIndexFromName(a, p.c_str()); CHECK(i >= 0 && (size_t)i < want.properties.size() && low(want.properties[(size_t)i]) == low(p), "%s: property %s is at %d", when, quote(p).c_str(), i); }
		uint32_t may = 0; for (uint32_t i = 0; i < a->count; i++) {
			auto *e = a->items[i].evidenceProperties; uint32_t at = a->items[i].propertyIndex, n = evidenceOf(d->serial, at); may += mayOverride(d, i);
			CHECK(e != nullptr && e->count == n, "%s: property %u has evidence of %u properties, expected %u", when, at, e ? e->count : 0, n); for (uint32_t k = 0; k < n; k++) CHECK(e->items[k] == at * 10 + k, "%s: evidence %u of property %u is %u", when, k, at, e->items[k]);
		}
		if (!c.overridable) may = 0;
		CHECK(may == (d->b.b.overridable ? d->b.b.overridable->count : 0), "%s: %u properties can be overridden, expected %u", when, d->b.b.overridable ? d->b.b.overridable->count : 0, may);
		auto *h = d->b.b.uniqueHeaders; CHECK(h != nullptr && h->count == want.headers.size(), "%s: %u headers, expected %zu", when, h ? h->count : 0, want.headers.size());
		for (auto &n : want.headers) CHECK(fiftyoneDegreesHeaderGetIndex(h, n.c_str(), n.size()) >= 0, "%s: header %s is missing", when, quote(n).c_str());
		CHECK(d->b.b.config == &c, "%s: another configuration", when);
	};
	auto temps = [&] { std::set<Str> r; for (auto &w : watched) for (auto &p : list(w)) if (!foreign.count(p)) r.insert(p); return r; };
	auto absolute = [&](const Str &p) { return p.empty() || p[0] == '/' ? p : root + "/cwd/" + p; };
	auto files_ = [&](const char *when) {
		std::set<Str> want; for (auto &x : sets) if (x.second.fromFile && temp && !(reuse && c.b.allInMemory)) want.insert(x.second.tempFile);
		auto have = temps(); for (auto &w : want) CHECK(have.count(w), "%s: the temporary file of a data set in use is gone", when);
		if (!(reuse && c.b.allInMemory)) CHECK(have.size() == want.size(), "%s: %zu temporary files for %zu data sets", when, have.size(), want.size());
		else CHECK(have.size() <= sets.size(), "%s: %zu temporary files for %zu data sets", when, have.size(), sets.size());
		for (auto &f : foreign) CHECK(slurp(f.first) == f.second, "%s: a file of another is changed or gone", when);
		for (auto &f : masters) CHECK(slurp(f.first) == f.second, "%s: a master file was changed", when);
	};
	auto dropped = [&](DataSetProbe *d) { // no longer active and not in use
		auto it = sets.find(d); if (it != sets.end() && it->second.users == 0 && d != active) { if (it->second.blob && !c.b.freeData) free(it->second.blob); sets.erase(it); }
	};
	auto became = [&](DataSetProbe *d, const Content &content, const Str &path, void *blob) {
		Loaded l; l.content = content; l.path = path; l.fromFile = !path.empty(); l.blob = blob;
		DataSetProbe *old = active; active = d;
		if (old) { dropped(old); }
		if (l.fromFile) {
			CHECK(path == d->b.b.masterFileName, "the master file is %s, expected %s", d->b.b.masterFileName, path.c_str());
			if (temp) { l.tempFile = absolute(d->b.b.fileName); CHECK(l.tempFile != path, "the master is used as a temporary file"); if (!(reuse && c.b.allInMemory)) CHECK(slurp(l.tempFile) == content.bytes || (compared >= 0 && reuse), "the temporary file is no copy"); if (!reuse) for (auto &x : sets) CHECK(x.second.tempFile != l.tempFile, "a temporary file is shared"); }
			else CHECK(path == d->b.b.fileName, "the data set is on another file");
		}
		sets[d] = l; last = content; reloads++;
	};
	// damages content so that loading has to fail
	auto damage = [&](Content x) { x.ok = false; switch (s.below(6)) { case 5: x.serial |= EVIDENCE_SHORT; memcpy(&x.bytes[4], &x.serial, 4); break; case 0: x.bytes.resize((size_t)s.below(x.bytes.size())); break; case 1: x.bytes[(size_t)s.below(4)] ^= (char)(1 << s.below(8)); break; case 2: x.bytes += s.bytes((size_t)s.range(1, 5)); break; case 3: { Content y = x; y.properties.assign(1, "zz"); Str b; coll::put32(b, MAGIC); coll::put32(b, x.serial); coll::put32(b, 0); coll::put32(b, 0); coll::put32(b, 0); coll::put32(b, 0); x.bytes = b; break; } default: x.bytes.clear(); } return x; };
	size_t steps = (size_t)s.range(3, 14);
	for (size_t k = 0; k <= steps; k++) {
		int op = k == 0 ? (s.chance(1, 2) ? 0 : 1) : (int)s.weighted({ 4, 3, 3, 4, 3 });
		bool first = !managed; if (first && op > 1) op = (int)s.below(2);
		if (op == 0 || op == 1 || op == 2) {
			DataSetProbe *was = active; bool bad = s.chance(1, 4), oom = s.chance(1, 6); size_t live = alloc::live(); int open = coll::openFds(); auto tempsBefore = temps();
			Content content = op == 2 && s.chance(1, 2) ? sets[active].content : s.chance(1, 4) ? last : make(s, ++serial, &base); if (bad) content = damage(content);
			Status st; DataSetProbe *made = nullptr; Str path; void *blob = nullptr; bool must = !bad, mustFail = bad; Status why = FIFTYONE_DEGREES_STATUS_NOT_SET;
			FIFTYONE_DEGREES_EXCEPTION_CREATE
			fiftyoneDegreesPropertiesRequired required = fiftyoneDegreesPropertiesDefault;
			if (op == 2 && sets[active].fromFile && (c.b.allInMemory || temp)) {
				path = sets[active].path; if (s.chance(1, 8)) { unlink(path.c_str()); masters.erase(path); must = false; mustFail = true; why = FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND; } else { spit(path, content.bytes); masters[path] = content.bytes; }
				log("%s original file%s%s", why == FIFTYONE_DEGREES_STATUS_NOT_SET ? "reload the" : "reload the missing", bad ? ", damaged" : "", oom ? ", little memory" : "");
			}
			else if (op == 2 && sets[active].fromFile) { path = sets[active].path; content = sets[active].content; bad = mustFail = false; must = true; log("reload the original file"); }
			else if (op == 0 || op == 2) {
				if (op == 2 && !sets[active].fromFile) { op = 0; }
				path = fresh(); int odd = (int)s.below(14);
				if (odd == 0) { must = false; mustFail = true; why = FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND; }
				else { if (odd == 1) { path = root + "/data/" + Str((size_t)s.range(4090, 4200), 'x'); must = false; mustFail = true; why = FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG; } else {
					if (odd == 2) { // the longest name there is room for, or one that is just too long
						size_t room = sizeof(((fiftyoneDegreesDataSetBase *)nullptr)->fileName), want = room - 3 + (size_t)s.below(6); path.insert((root + "/data").size(), want - path.size(), '/');
						if (want >= room) { must = false; mustFail = true; why = FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG; } label("a name at the limit");
					}
					if (!mustFail || why == FIFTYONE_DEGREES_STATUS_NOT_SET) { spit(path, content.bytes); masters[path] = content.bytes; } } }
				log("%s file %s%s%s", first ? "init from" : "reload from", path.size() > 2000 ? "(long)" : path.substr(root.size()).c_str(), odd == 0 ? " missing" : bad ? " damaged" : "", oom ? ", little memory" : "");
			}
			else {
				if (bad) content.bytes[0] ^= 1; // memory is trusted beyond that
				size_t n = content.bytes.size(); blob = c.b.freeData ? fiftyoneDegreesMalloc(n ? n : 1) : malloc(n ? n : 1); memcpy(blob, content.bytes.data(), n); if (c.b.freeData) live++;
				if (bad && n >= 16) { uint32_t m; memcpy(&m, blob, 4); m = ~MAGIC; memcpy(blob, &m, 4); }
				log("%s memory%s%s", first ? "init from" : "reload from", bad ? " damaged" : "", oom ? ", little memory" : "");
			}
			if (temp && !anyDir && blob == nullptr) { must = false; mustFail = true; why = FIFTYONE_DEGREES_STATUS_NOT_SET; }
			if (why == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND && temp && !anyDir) why = FIFTYONE_DEGREES_STATUS_NOT_SET;
			if (path.size() > 4095) why = FIFTYONE_DEGREES_STATUS_FILE_PATH_TOO_LONG; else if (path.size() > 255 + root.size() + 7) why = FIFTYONE_DEGREES_STATUS_NOT_SET;
			if (oom) alloc::arm((int64_t)s.below(30), s.chance(1, 2));
			if (first) {
				made = (DataSetProbe *)fiftyoneDegreesMalloc(sizeof *made); if (made == nullptr) st = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
				else {
					st = path.empty() ? initDataSetFromMemory(made, &c, &required, blob, (long)content.bytes.size(), exception) : initDataSetFromFile(made, &c, &required, path.c_str(), exception);
					if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) { if (path.empty()) fiftyoneDegreesFree(made); }
					else { fiftyoneDegreesResourceManagerInit(&manager, made, &made->b.b.handle, freeProbe); if (made->b.b.handle == nullptr) { if (path.empty()) made->b.b.memoryToFree = nullptr; freeProbe(made); st = FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY; } else managed = true; }
				}
			}
			else if (!path.empty() && op == 2) st = fiftyoneDegreesProbeReloadManagerFromOriginalFile(&manager, exception);
			else if (!path.empty()) st = fiftyoneDegreesProbeReloadManagerFromFile(&manager, path.c_str(), exception);
			else st = fiftyoneDegreesProbeReloadManagerFromMemory(&manager, blob, (long)content.bytes.size(), exception);
			bool starved = oom && alloc::S().failed > 0; if (oom) alloc::disarm();
			if (starved) { must = false; label("memory ran out"); }
			if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) {
				CHECK(!must, "valid data was refused with %d", (int)st); refusals++;
				if (!starved && why != FIFTYONE_DEGREES_STATUS_NOT_SET) CHECK(st == why, "refused with %d, expected %d", (int)st, (int)why);
				CHECK(st != FIFTYONE_DEGREES_STATUS_NOT_SET, "no reason was given");
				bool given = false; // a replacement without room for its handle was freed with its data
				if (blob && c.b.freeData && !first) { given = alloc::S().live.count(blob) == 0; CHECK(!given || starved, "data of a refused data set was freed"); }
				if (blob) { if (c.b.freeData) { if (!given) fiftyoneDegreesFree(blob); } else free(blob); if (c.b.freeData) live--; }
				alloc::expectCount(live, "after a refused data set"); CHECK(coll::openFds() == open, "%d descriptors after a refused data set, %d before", coll::openFds(), open);
				CHECK(temps() == tempsBefore || (reuse && c.b.allInMemory), "a refused data set left or took a temporary file");
				if (!first) { DataSetProbe *now = fiftyoneDegreesDataSetProbeGet(&manager); CHECK(now == was, "a refused data set became active"); check(now, sets[now].content, "after a refused data set"); fiftyoneDegreesDataSetProbeRelease(now); }
			} else {
				CHECK(!mustFail, "data which can not be used was accepted");
				DataSetProbe *now = fiftyoneDegreesDataSetProbeGet(&manager); if (!first) CHECK(now != was, "the old data set is still active");
				if (first && !starved) base.properties = base.properties; // everything the first one offers is required
				if (first) base = content;
				became(now, content, path, blob); check(now, content, "the new data set"); fiftyoneDegreesDataSetProbeRelease(now);
			}
		}
		else if (op == 3) { log("use"); DataSetProbe *d = fiftyoneDegreesDataSetProbeGet(&manager); CHECK(d == active, "another data set was given"); sets[d].users++; held.push_back({ d, sets[d].content }); check(d, sets[d].content, "a user"); }
		else if (!held.empty()) { size_t i = s.below(held.size()); log("release"); auto h = held[i]; held.erase(held.begin() + (long)i); check(h.first, h.second, "before release"); sets[h.first].users--; bool dies = sets[h.first].users == 0 && h.first != active; if (dies) label("last user released"); fiftyoneDegreesDataSetProbeRelease(h.first); dropped(h.first); }
		for (auto &h : held) check(h.first, h.second, "an earlier user");
		files_("after a step");
	}
	for (auto &h : held) { sets[h.first].users--; fiftyoneDegreesDataSetProbeRelease(h.first); dropped(h.first); }
	files_("after the users");
	if (managed) { fiftyoneDegreesResourceManagerFree(&manager); DataSetProbe *d = active; active = nullptr; dropped(d); }
	CHECK(temps().empty(), "a temporary file is left at the end"); files_("at the end");
	alloc::expectNone("after everything was released"); CHECK(coll::openFds() == fds, "%d descriptors at the end, %d before", coll::openFds(), fds);
	if (reloads > 1 && refusals > 0) nontrivial();
	if (chdir(before) != 0) abort(); clear(root);
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "In the histories without threads, one reload at a time.", "Without a temporary copy and in streamed mode the named file is not changed while data sets use it.", "Data held in memory is checked by its owner." };
	suite("history", history, 12000, 1500000, "several data sets became active and another was refused");
	return runMain(argc, argv, o);
}
