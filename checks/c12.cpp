// C12: whole-file operations are exact or say that they failed.
#include "coll.hpp"
#include <sys/resource.h>
#include <sys/stat.h>
#include <csignal>
#include <dirent.h>
using namespace pbt;
static int readsLeft = -1; static size_t readShort = 0; static int readFaults = 0;
extern "C" size_t __real_fread(void *, size_t, size_t, FILE *);
extern "C" size_t __wrap_fread(void *p, size_t size, size_t n, FILE *f) {
	if (readsLeft < 0) return __real_fread(p, size, n, f);
	if (readsLeft-- > 0) return __real_fread(p, size, n, f);
	// an error on the device part way through: what was read before it, with the stream's error flag raised
	readFaults++; size_t got = size * n > readShort ? readShort : size * n ? size * n - 1 : 0;
	got = __real_fread(p, 1, got, f) / (size ? size : 1);
	f->_flags |= 0x20; readsLeft = 0;
	return got;
}
namespace {
std::string dir;
std::string slurp(const std::string &p, bool *there = nullptr) {
	std::string r; FILE *f = fopen(p.c_str(), "rb"); if (there) *there = f != nullptr; if (f == nullptr) return r;
	char b[8192]; size_t n; while ((n = __real_fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r;
}
void spit(const std::string &p, const std::string &c) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(c.data(), 1, c.size(), f) != c.size()) { perror(p.c_str()); abort(); } fclose(f); }
void clear(const std::string &d) {
	DIR *h = opendir(d.c_str()); if (h == nullptr) return; dirent *e;
	while ((e = readdir(h)) != nullptr) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) clear(p); else unlink(p.c_str()); }
	closedir(h); rmdir(d.c_str());
}
std::set<std::string> names(const std::string &d) { std::set<std::string> r; DIR *h = opendir(d.c_str()); dirent *e; while ((e = readdir(h)) != nullptr) r.insert(e->d_name); closedir(h); return r; }
std::string content(Src &s) { size_t n = (size_t)s.small(0, s.chance(1, 6) ? 40000 : 300); if (s.chance(1, 8)) n = (size_t)s.pick(std::vector<int>{ 8191, 8192, 8193, 16384, 4096 }); if (s.chance(1, 150)) { n = (size_t)s.range(65500, 300000); label("a large file"); } std::string pat = s.bytes(std::min<size_t>(n, 60)), r; while (r.size() < n) { r += pat; r.push_back((char)r.size()); } r.resize(n); return r; }
bool okay(fiftyoneDegreesStatusCode c) { return c == FIFTYONE_DEGREES_STATUS_SUCCESS; }
void operations(Src &s) {
	alloc::begin(); int fds = coll::openFds();
	dir = G().scratch + "/o" + std::to_string(getpid()); clear(dir); mkdir(dir.c_str(), 0700); mode_t mask = umask(027);
	std::map<std::string, std::string> model; std::set<std::string> dirs; // what should exist
	std::vector<std::string> pool = { "a", "b.dat", "c" , "sub/x", "nowhere/y", "long-name-of-a-file.enc.dat" };
	size_t steps = (size_t)s.range(1, 14), faults = 0, done = 0;
	for (size_t k = 0; k < steps; k++) {
		std::string n = s.pick(pool), p = dir + "/" + n; auto at = model.find(n);
		bool parent = n.find('/') == std::string::npos || dirs.count(n.substr(0, n.find('/')));
		switch (s.below(7)) {
		case 0: { // write, perhaps on a full device
			std::string c = content(s); struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; bool room = true;
			if (s.chance(1, 4)) { lim.rlim_cur = (rlim_t)s.below(c.size() + 2000); room = lim.rlim_cur >= c.size(); }
			char *block = (char *)malloc(c.size() ? c.size() : 1); memcpy(block, c.data(), c.size());
			setrlimit(RLIMIT_FSIZE, &lim); auto st = fiftyoneDegreesFileWrite(p.c_str(), block, c.size()); setrlimit(RLIMIT_FSIZE, &old); free(block);
			log("write %zu bytes to %s, room for %ld: %d", c.size(), n.c_str(), (long)lim.rlim_cur, (int)st);
			if (!parent || dirs.count(n)) { CHECK(!okay(st), "writing into nothing succeeds"); break; }
			if (!room) { faults++; label("device full"); CHECK(!okay(st), "success for %zu bytes with room for %ld", c.size(), (long)lim.rlim_cur); model.erase(n); unlink(p.c_str()); break; }
			CHECK(okay(st), "status %d", (int)st); bool there; CHECK(slurp(p, &there) == c && there, "the file differs from the %zu bytes written", c.size()); model[n] = c; done++; break; }
		case 1: { // read
			fiftyoneDegreesMemoryReader r; memset(&r, 0x5A, sizeof r); int faulty = s.chance(1, 4); size_t live = alloc::live();
			if (faulty) { readsLeft = (int)s.below(2); readShort = (size_t)s.below(50000); readFaults = 0; }
			auto st = fiftyoneDegreesFileReadToByteArray(p.c_str(), &r); bool hit = faulty && readFaults > 0; readsLeft = -1;
			log("read %s%s: %d", n.c_str(), hit ? " with a fault" : "", (int)st);
			if (at == model.end()) { if (dirs.count(n)) { if (okay(st)) alloc::expectCount(live, "dir"); break; } CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "a missing file was reported as %d", (int)st); break; }
			if (okay(st)) {
				CHECK(!hit, "success after a read that failed");
				CHECK(r.length == (long)at->second.size() && r.current == r.startByte && r.lastByte == r.current + r.length, "reader of %ld bytes for a file of %zu", r.length, at->second.size());
				CHECK(memcmp(r.current, at->second.data(), at->second.size()) == 0, "the bytes read differ from the file's"); fiftyoneDegreesFree(r.current); done++;
			} else {
				if (hit) { faults++; label("read fault"); } else CHECK(at->second.empty(), "a readable file of %zu bytes reported as %d", at->second.size(), (int)st);
				CHECK(r.current == nullptr && r.startByte == nullptr && r.length == 0, "a failed read left something in the reader");
			}
			alloc::expectCount(live, "after reading a file"); break; }
		case 2: { // copy
			std::string m = s.pick(pool), q = dir + "/" + m; if (m == n) break; bool parent2 = m.find('/') == std::string::npos || dirs.count(m.substr(0, m.find('/')));
			struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; bool room = true; size_t sz = at == model.end() ? 0 : at->second.size();
			if (s.chance(1, 4)) { lim.rlim_cur = (rlim_t)s.below(sz + 3000); room = lim.rlim_cur >= sz; }
			bool fault = s.chance(1, 4); if (fault) { readsLeft = (int)s.below(4); readShort = (size_t)s.below(20000); readFaults = 0; }
			setrlimit(RLIMIT_FSIZE, &lim); auto st = fiftyoneDegreesFileCopy(p.c_str(), q.c_str()); setrlimit(RLIMIT_FSIZE, &old); bool hit = fault && readFaults > 0; readsLeft = -1;
			log("copy %s to %s%s%s: %d", n.c_str(), m.c_str(), room ? "" : " without room", hit ? " with a read fault" : "", (int)st);
			struct stat sb; bool exists = stat(q.c_str(), &sb) == 0;
			if (okay(st)) {
				CHECK(at != model.end(), "copied a file that does not exist"); CHECK(parent2 && !dirs.count(m), "copied to nowhere"); CHECK(room && !hit, "success for a copy that failed");
				CHECK(slurp(q) == at->second, "the copy differs from the original"); model[m] = at->second; done++;
			} else {
				if (at == model.end() && !dirs.count(n)) { CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "a missing file was reported as %d", (int)st); CHECK(exists == (model.count(m) > 0 || dirs.count(m) > 0), "copying from a missing file changed the destination"); break; }
				CHECK(at == model.end() || !parent2 || dirs.count(m) || !room || hit, "a possible copy was reported as %d", (int)st);
				if (parent2 && !dirs.count(m)) { CHECK(!exists, "the copy failed and a file is left"); model.erase(m); faults++; label("copy fault"); }
			}
			if (at != model.end()) CHECK(slurp(p) == model[n], "copying changed the original");
			break; }
		case 3: { long z = fiftyoneDegreesFileGetSize(p.c_str()); log("size of %s: %ld", n.c_str(), z); if (dirs.count(n)) break; CHECK(z == (at == model.end() ? -1 : (long)at->second.size()), "size %ld", z); break; }
		case 4: { auto st = fiftyoneDegreesFileDelete(p.c_str()); log("delete %s: %d", n.c_str(), (int)st); struct stat sb; if (dirs.count(n)) { if (okay(st)) dirs.erase(n); break; }
			if (at == model.end()) CHECK(!okay(st) && st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "deleting nothing: %d", (int)st); else { CHECK(okay(st), "deleting: %d", (int)st); model.erase(n); CHECK(stat(p.c_str(), &sb) != 0, "the file is still there"); } break; }
		case 5: { std::string d = s.pick(std::vector<std::string>{ "sub", "nowhere/deep", "a" }); auto st = fiftyoneDegreesFileCreateDirectory((dir + "/" + d).c_str()); log("mkdir %s: %d", d.c_str(), (int)st); struct stat sb; bool is = stat((dir + "/" + d).c_str(), &sb) == 0 && S_ISDIR(sb.st_mode);
			if (d == "nowhere/deep") { CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "directory in nothing: %d", (int)st); break; }
			if (model.count(d) || dirs.count(d)) CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_EXISTS_ERROR, "directory over something: %d", (int)st); else { CHECK(okay(st) && is, "directory not created: %d", (int)st); dirs.insert(d); } break; }
		default: { FILE *f = nullptr; auto st = fiftyoneDegreesFileOpen(p.c_str(), &f); log("open %s: %d", n.c_str(), (int)st); if (dirs.count(n)) { if (f) fclose(f); break; }
			if (at == model.end()) { CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "opening nothing: %d", (int)st); break; } CHECK(okay(st) && f != nullptr, "open: %d", (int)st);
			char b[40]; size_t g = __real_fread(b, 1, 40, f); CHECK(ftell(f) == (long)g && memcmp(b, at->second.data(), g) == 0 && g == std::min<size_t>(40, at->second.size()), "an opened file reads differently"); fclose(f); break; }
		}
		mode_t now = umask(027); CHECK(now == 027, "the process's file mode mask was changed to %o", now);
		std::set<std::string> want = { ".", ".." }, have = names(dir); for (auto &m : model) if (m.first.find('/') == std::string::npos) want.insert(m.first); for (auto &d : dirs) want.insert(d);
		CHECK(have == want, "%zu entries in the directory, expected %zu", have.size(), want.size());
	}
	for (auto &m : model) CHECK(slurp(dir + "/" + m.first) == m.second, "%s changed", m.first.c_str());
	CHECK(coll::openFds() == fds, "%d descriptors left open", coll::openFds() - fds); alloc::expectNone("at the end");
	umask(mask); clear(dir); if (done > 2 && faults > 0) nontrivial();
}
void paths(Src &s) {
	alloc::begin();
	static const char *parts[] = { "data", "a.b", "x", ".hidden", "dir.d", "51Degrees-V4.hash", "..", ".", "name.tar.gz", "trailing.", "" };
	std::string p; size_t n = (size_t)s.range(0, 5); if (s.chance(1, 3)) p = "/";
	for (size_t i = 0; i < n; i++) { p += parts[s.below(11)]; if (i + 1 < n || s.chance(1, 6)) p += s.chance(1, 4) ? "\\" : "/"; }
	size_t cut = p.find_last_of("/\\"); std::string name = cut == std::string::npos ? p : p.substr(cut + 1);
	char *block = (char *)malloc(p.size() + 1); memcpy(block, p.c_str(), p.size() + 1);
	const char *got = fiftyoneDegreesFileGetFileName(block);
	log("path %s", quote(p).c_str());
	CHECK(name == got, "file name %s of %s", quote(std::string(got)).c_str(), quote(p).c_str());
	// a temporary name for it, in a buffer of any size, after any prefix
	size_t dot = name.rfind('.'); std::string base = dot == std::string::npos || dot == 0 ? name : name.substr(0, dot);
	std::string pre(s.chance(1, 2) ? "" : (dir = G().scratch) + "/"), pid = std::to_string(getpid());
	size_t full = base.size() + 1 + pid.size() + 1 + TEMP_UNIQUE_STRING_LENGTH + 1;
	size_t room = s.chance(1, 2) ? full + (size_t)s.range(-1, 1) : (size_t)s.below(full + 30);
	char *buf = (char *)malloc(pre.size() + room + 1); memset(buf, 'Z', pre.size() + room + 1); memcpy(buf, pre.data(), pre.size()); char *exact = (char *)malloc(pre.size() + room ? pre.size() + room : 1); memcpy(exact, buf, pre.size() + room); free(buf);
	auto st = fiftyoneDegreesFileAddTempFileName(block, exact, pre.size(), room);
	CHECK(memcmp(exact, pre.data(), pre.size()) == 0, "the directory before the name was changed");
	if (room >= full) {
		CHECK(okay(st), "no temporary name in %zu of %zu bytes: %d", room, full, (int)st);
		std::string t(exact + pre.size()); std::string head = base + "-" + pid + "-";
		CHECK(t.size() == full - 1 && t.compare(0, head.size(), head) == 0, "temporary name %s", quote(t).c_str());
		for (char c : t.substr(head.size())) CHECK(c >= 'A' && c <= 'Z', "temporary name %s", quote(t).c_str());
	} else CHECK(st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "status %d for %zu of %zu bytes", (int)st, room, full);
	free(exact); free(block);
	if (n > 1 && (dot != std::string::npos)) nontrivial();
}
void lookup(Src &s) {
	alloc::begin(); int fds = coll::openFds(); char before[4096]; if (getcwd(before, sizeof before) == nullptr) abort();
	std::string root = G().scratch + "/l" + std::to_string(getpid()); clear(root); mkdir(root.c_str(), 0700);
	std::string folder = "fld" + s.chars("ab.", (size_t)s.range(1, 4)), file = "file" + s.chars("xy.", (size_t)s.range(1, 9)); std::string at = root, best;
	if (s.chance(1, 8)) { folder = "etc"; file = "passwd"; if (access("/etc/passwd", R_OK) == 0) best = "/etc/passwd"; label("also in the root directory"); } size_t depth = (size_t)s.range(0, 5);
	for (size_t d = 0; ; d++) {
		if (s.chance(1, 3)) { mkdir((at + "/" + folder).c_str(), 0700); if (s.chance(3, 4)) { spit(at + "/" + folder + "/" + file, "x"); best = at + "/" + folder + "/" + file; } }
		if (d == depth) break;
		at += "/" + s.chars("uvw", (size_t)s.range(1, 6)); mkdir(at.c_str(), 0700);
	}
	if (chdir(at.c_str()) != 0) abort();
	// the name can be about as long as a path may be
	size_t deepest = at.size() + 2 + folder.size() + file.size(); bool tooLong = false; std::string stretched = folder;
	if (s.chance(1, 5)) { size_t want = 4095 + (size_t)s.range(-3, 3) + (s.chance(1, 3) ? (size_t)s.below(at.size()) : 0); while (deepest + 2 <= want) { stretched += "/."; deepest += 2; } if (deepest < want) { stretched += "/"; deepest++; } tooLong = deepest > 4095; if (!best.empty()) best.insert(best.size() - 1 - file.size(), stretched.substr(folder.size())); label(tooLong ? "no room for the path" : "longest path"); }
	size_t size = best.empty() ? (size_t)s.below(300) : s.chance(1, 2) ? best.size() + (size_t)s.range(-1, 2) : (size_t)s.below(best.size() + 50);
	char *buf = (char *)malloc(size ? size : 1); memset(buf, 'Z', size ? size : 1);
	auto st = fiftyoneDegreesFileGetPath(stretched.c_str(), file.c_str(), buf, size);
	if (chdir(before) != 0) abort();
	log("looking for %s/%s from depth %zu, buffer of %zu: %d", folder.c_str(), file.c_str(), depth, size, (int)st);
	if (tooLong) { CHECK(st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY || (okay(st) && size > best.size() && best == buf), "status %d although there is no room for the path", (int)st); }
	else if (best.empty()) CHECK(st == FIFTYONE_DEGREES_STATUS_FILE_NOT_FOUND, "status %d and there is no such file", (int)st);
	else if (size > best.size()) { CHECK(okay(st), "status %d for %s", (int)st, best.c_str()); CHECK(best == buf, "found %s instead of %s", buf, best.c_str()); if (depth > 1) nontrivial(); }
	else CHECK(st == FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY, "status %d for a path of %zu in %zu bytes", (int)st, best.size(), size);
	CHECK(coll::openFds() == fds, "%d descriptors left open", coll::openFds() - fds); alloc::expectNone("at the end"); free(buf); clear(root);
}
}
int main(int argc, char **argv) {
	signal(SIGXFSZ, SIG_IGN);
	Options o; o.assumptions = { "Copying a file onto itself and taking the size of a directory are not judged.", "An empty file may be refused by reading it into memory (data files are never empty)." };
	suite("operations", operations, 12000, 900000, "at least 3 operations took effect and at least one met a fault");
	suite("paths", paths, 30000, 3000000, "a path of several parts with a dot in its name");
	suite("lookup", lookup, 6000, 400000, "found at least two folders deep");
	return runMain(argc, argv, o);
}
