// C13: temporary copies of master files.
#include "coll.hpp"
#include <sys/stat.h>
#include <sys/wait.h>
#include <dirent.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <csignal>
using namespace pbt;
// The random numbers which names are made of, so that a name can come out which is taken.
static std::string nextLetters;
extern "C" int rand(void) { if (nextLetters.empty()) return (int)random(); int r = nextLetters[0] - 'A'; nextLetters.erase(0, 1); return r; }
namespace {
std::string slurp(const std::string &p) { std::string r; FILE *f = fopen(p.c_str(), "rb"); if (f == nullptr) return r; char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
void spit(const std::string &p, const std::string &c) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(c.data(), 1, c.size(), f) != c.size()) { perror(p.c_str()); abort(); } fclose(f); }
void clear(const std::string &d) {
	DIR *h = opendir(d.c_str()); if (h == nullptr) return; dirent *e;
	while ((e = readdir(h)) != nullptr) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = d + "/" + n; struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) clear(p); else unlink(p.c_str()); }
	closedir(h); rmdir(d.c_str());
}
typedef std::map<std::string, std::string> Tree; // path under the root -> content
void walk(const std::string &root, const std::string &rel, Tree &t) {
	DIR *h = opendir((root + rel).c_str()); if (h == nullptr) return; dirent *e;
	while ((e = readdir(h)) != nullptr) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat st; std::string p = rel + "/" + n; if (lstat((root + p).c_str(), &st) != 0) continue; if (S_ISDIR(st.st_mode)) walk(root, p, t); else t[p] = slurp(root + p); }
	closedir(h);
}
std::string nameOf(const std::string &p) { return p.substr(p.find_last_of('/') + 1); }
std::string baseOf(const std::string &p) { std::string n = nameOf(p); size_t d = n.rfind('.'); return d == std::string::npos || d == 0 ? n : n.substr(0, d); }
bool tempOf(const std::string &master, const std::string &file) { // base-digits-20 capitals
	std::string b = baseOf(master) + "-", n = nameOf(file); if (n.compare(0, b.size(), b) != 0) return false;
	size_t i = b.size(), d = i; while (i < n.size() && isdigit((unsigned char)n[i])) i++; if (i == d || i >= n.size() || n[i] != '-') return false;
	if (n.size() - ++i != 20) return false; for (; i < n.size(); i++) if (n[i] < 'A' || n[i] > 'Z') return false; return true;
}
bool same(const std::string &a, const std::string &b, long compared) { if (a.size() != b.size()) return false; size_t n = compared < 0 ? a.size() : std::min<size_t>(a.size(), (size_t)compared); return memcmp(a.data(), b.data(), n) == 0; }
// Leaves no more than so many descriptors free while it lives.
struct Starve { std::vector<int> held; rlimit was; bool on; Starve(int free) : on(free >= 0) { if (!on) return; getrlimit(RLIMIT_NOFILE, &was); int d; while ((d = dup(0)) >= 0 && d < 96) held.push_back(d); if (d >= 0) close(d); rlimit l = was; l.rlim_cur = 96; setrlimit(RLIMIT_NOFILE, &l); while ((d = dup(0)) >= 0) held.push_back(d); for (; free > 0; free--) { close(held.back()); held.pop_back(); } } ~Starve() { end(); } void end() { if (!on) return; for (int d : held) close(d); held.clear(); setrlimit(RLIMIT_NOFILE, &was); on = false; } };
std::string capitals(Src &s) { return s.chars("ABCXYZ", 20); }
void history(Src &s) {
	alloc::begin(); int fds = coll::openFds(); char before[4096]; if (getcwd(before, sizeof before) == nullptr) abort();
	std::string root = G().scratch + "/t" + std::to_string(getpid()); clear(root); mkdir(root.c_str(), 0700);
	std::vector<std::string> dirs = { "/cwd", "/tmp1", "/tmp2", "/dir.d" }; for (auto &d : dirs) mkdir((root + d).c_str(), 0700);
	spit(root + "/file", "not a directory");
	std::vector<std::string> masterNames = { "data", "data.dat", "data.v1.dat", "dat", "a.b.c", "noext", ".hid", "data-7" };
	if (s.chance(1, 4)) masterNames.push_back("data-7-" + std::string(20, 'Q'));
	std::string content = s.bytes((size_t)s.small(1, 60)); if (s.chance(1, 3)) { size_t n = (size_t)s.pick(std::vector<int>{ 1023, 1024, 1025, 2048, 3000, 5000 }); if (s.chance(1, 20)) { n = (size_t)s.range(65000, 200000); label("a large master"); } std::string c; while (c.size() < n) { c += content; c.push_back((char)c.size()); } c.resize(n); content = c; }
	struct M { std::string path, given; }; std::vector<M> masters; Tree tree;
	if (chdir((root + "/cwd").c_str()) != 0) abort();
	for (size_t i = 0, n = (size_t)s.small(1, 3); i < n; i++) {
		std::string d = s.pick(dirs), m = d + "/" + s.pick(masterNames); bool dup = false; for (auto &x : masters) dup |= x.path == m; if (dup) continue;
		std::string c = content; if (s.chance(1, 3)) c[(size_t)s.below(c.size())] ^= 1; if (s.chance(1, 12)) c.clear(); spit(root + m, c); tree[m] = c;
		std::string given = d == "/cwd" && s.chance(1, 2) ? nameOf(m) : s.chance(1, 3) ? "../" + m.substr(1) : root + m;
		masters.push_back({ m, given }); log("master %s given as %s, %zu bytes", m.c_str(), given.compare(0, root.size(), root) == 0 ? "absolute path" : given.c_str(), c.size());
		if (s.chance(1, 12)) { auto &g = masters.back().given; std::string d = g.substr(0, g.find_last_of('/') + 1), nm = nameOf(g); if (d.empty()) d = "./"; size_t want = 4095 - (size_t)s.below(60); while (d.size() + nm.size() + 2 <= want) d += "./"; if (d.size() + nm.size() < want) d += "/"; g = d + nm; label("master path near the limit"); }
	}
	tree["/file"] = "not a directory";
	if (s.chance(1, 4)) { std::string p = "/tmp1/" + std::string((size_t)s.range(100, 250), 'n'); spit(root + p, content); tree[p] = content; }
	struct Open { FILE *f; std::string path; pid_t child; int pipe; }; std::vector<Open> open; std::vector<std::string> temps; size_t made = 0, reused = 0, deleted = 0, spared = 0;
	size_t steps = (size_t)s.range(3, 16);
	for (size_t k = 0; k < steps; k++) {
		M m = s.pick(masters);
		if (!tree.count(m.path)) { spit(root + m.path, content); tree[m.path] = content; } // its name was that of a copy of another
		// candidate directories: as given to the library and as they are
		std::vector<std::string> given, real; int form = (int)s.below(6);
		if (form > 0) for (size_t i = 0, n = (size_t)s.range(1, 3); i < n; i++) switch (s.below(9)) {
			case 0: given.push_back(root + "/missing"); real.push_back(""); break;
			case 1: given.push_back(root + "/file"); real.push_back(""); break;
			case 2: given.push_back(""); real.push_back("/cwd"); break;
			case 3: given.push_back("../tmp1/"); real.push_back("/tmp1"); break;
			case 4: if (s.chance(1, 4)) { given.push_back(std::string((size_t)s.range(4080, 4200), 'd')); real.push_back(""); break; } [[fallthrough]];
			case 5: if (s.chance(1, 2)) { std::string d = "/tmp1", g = s.chance(1, 2) ? root + d : "../tmp1"; size_t want = 4095 - (size_t)s.below(60); while (g.size() + 2 <= want) g += "/."; if (g.size() < want) g += "/"; given.push_back(g); real.push_back(d); label("directory name near the limit"); break; } [[fallthrough]];
			default: { std::string d = s.chance(2, 3) ? dirs[(size_t)s.below(2)] : s.pick(dirs); given.push_back(root + d + (s.chance(1, 2) ? "/" : "")); real.push_back(d); }
		} else real.push_back("/cwd");
		std::vector<const char *> ptr; for (auto &g : given) ptr.push_back(g.c_str()); const char **pp = given.empty() ? nullptr : ptr.data(); int count = (int)given.size();
		std::string shown; for (auto &r : real) shown += " " + (r.empty() ? "(unusable)" : r);
		// the name of a directory as the library writes it before that of a file, and whether there is room for both
		auto prefix = [&](size_t i) { std::string g = given.empty() ? "" : given[i]; if (!g.empty() && g.back() != '/') g += "/"; return g; };
		auto fits = [&](size_t i, const std::string &x) { return prefix(i).size() + nameOf(x).size() < 4096; };
		switch (s.weighted({ 5, 5, 4, 3, 2, 2, 3, 2 })) {
		case 0: { // a new copy
			bool small = s.chance(1, 6); std::string expect; size_t usable = real.size(); for (size_t i = 0; i < real.size(); i++) if (!real[i].empty()) { usable = i; break; }
			std::string dir = usable == real.size() ? "" : given.empty() ? "" : given[usable]; if (!dir.empty() && dir.back() != '/') dir += "/";
			size_t full = dir.size() + baseOf(m.path).size() + 2 + std::to_string(getpid()).size() + 20 + 1, room = small ? (s.chance(1, 2) ? full - 1 + (size_t)s.below(2) : (size_t)s.below(full)) : 4096;
			char *dest = (char *)malloc(room ? room : 1); memset(dest, 0, room ? room : 1);
			int freeFds = s.chance(1, 8) ? (int)s.below(3) : -1; Starve starve(freeFds);
			auto st = fiftyoneDegreesFileNewTempFile(m.given.c_str(), pp, count, dest, room); starve.end(); if (freeFds >= 0) { log("%d descriptors free", freeFds); label("few descriptors"); }
			log("new copy of %s in%s, room %zu of %zu: %d", m.path.c_str(), shown.c_str(), room, full, (int)st);
			Tree now; walk(root, "", now);
			if (usable == real.size()) CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS, "a copy in no usable directory");
			if (freeFds >= 0 && freeFds < 2) CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS, "a copy made with %d descriptors free", freeFds);
			if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
				std::string p(dest, strnlen(dest, room)); CHECK(p.size() + 1 <= room, "name not terminated");
				CHECK(now.size() == tree.size() + 1, "%zu files appeared", now.size() - tree.size());
				for (auto &x : now) if (!tree.count(x.first)) expect = x.first;
				size_t first = real.size(); for (size_t i = 0; i < real.size(); i++) { std::string g = given.empty() ? "" : given[i]; if (!g.empty() && g.back() != '/') g += "/"; if (!real[i].empty() && std::min<size_t>(room, 4096) >= g.size() + full - dir.size()) { first = i; break; } }
				CHECK(first < real.size() && expect.compare(0, expect.rfind('/'), real[first]) == 0 && expect.rfind('/') == real[first].size(), "copy made at %s", expect.c_str());
				std::string g = given.empty() ? "" : given[first]; if (!g.empty() && g.back() != '/') g += "/";
				CHECK(p == g + nameOf(expect), "copy reported as %s, made at %s", p.c_str(), expect.c_str());
				CHECK(tempOf(m.path, expect) && nameOf(expect).find("-" + std::to_string(getpid()) + "-") != std::string::npos, "copy named %s", nameOf(expect).c_str());
				CHECK(now[expect] == tree[m.path], "the copy differs from its master"); tree[expect] = now[expect]; temps.push_back(expect); made++; if (first > 0) label("later directory");
			} else { for (size_t i = 0; i < real.size(); i++) CHECK((freeFds >= 0 && freeFds < 2) || real[i].empty() || std::min<size_t>(room, 4096) < prefix(i).size() + full - dir.size(), "no copy of %zu bytes made: %d", tree[m.path].size(), (int)st); label("copy refused"); CHECK(room == 0 || dest[0] == 0, "a name is left after a failure"); }
			free(dest); break; }
		case 1: { // one to re-use
			long compared = s.chance(1, 3) ? -1 : s.chance(1, 2) ? (long)s.below(tree[m.path].size() + 10) : (long)s.pick(std::vector<int>{ 0, 1, 1000, 1024, 1025, 2000 });
			char *dest = (char *)calloc(1, 4096); int freeFds = s.chance(1, 8) ? (int)s.below(5) : -1; Starve starve(freeFds); bool few = freeFds >= 0 && freeFds < 4;
			bool found = fiftyoneDegreesFileGetExistingTempFile(m.given.c_str(), pp, count, compared, dest); std::string p = dest; free(dest); starve.end(); if (freeFds >= 0) { log("%d descriptors free", freeFds); label("few descriptors"); }
			log("existing copy of %s comparing %ld in%s: %s", m.path.c_str(), compared, shown.c_str(), found ? nameOf(p).c_str() : "none");
			std::set<std::string> want; for (size_t i = 0; i < real.size() && (few || want.empty()); i++) if (!real[i].empty()) for (auto &x : tree) if (fits(i, x.first) && x.first.compare(0, x.first.rfind('/'), real[i]) == 0 && x.first.rfind('/') == real[i].size() && x.first != m.path && tempOf(m.path, x.first) && same(x.second, tree[m.path], compared)) { std::string g = given.empty() ? "" : given[i]; if (!g.empty() && g.back() != '/') g += "/"; want.insert(g + nameOf(x.first)); }
			CHECK(found == !want.empty() || (few && !found), found ? "%s offered for re-use" : "no copy offered%s, there is one", found ? p.c_str() : "");
			if (found) { CHECK(want.count(p), "%s offered for re-use", p.c_str()); reused++; }
			break; }
		case 2: { // clean up
			long compared = s.chance(1, 2) ? -1 : (long)s.below(tree[m.path].size() + 10);
			if (s.chance(1, 150)) { size_t n = (size_t)s.range(250, 300); for (size_t i = 0; i < n; i++) { char b[24]; snprintf(b, sizeof b, "%020zu", i); for (char *c = b; *c; c++) *c = (char)(*c - '0' + 'A'); std::string t = dirs[(size_t)s.below(2)] + "/" + baseOf(m.path) + "-5-" + b; spit(root + t, tree[m.path]); tree[t] = tree[m.path]; } label("many copies"); }
			int freeFds = s.chance(1, 8) ? (int)s.below(5) : -1; Starve starve(freeFds); bool few = freeFds >= 0 && freeFds < 4;
			int n = fiftyoneDegreesFileDeleteUnusedTempFiles(m.given.c_str(), pp, count, compared); starve.end(); if (freeFds >= 0) { log("%d descriptors free", freeFds); label("few descriptors"); } log("clean up after %s comparing %ld in%s: %d", m.path.c_str(), compared, shown.c_str(), n);
			std::set<std::string> gone; for (auto &x : tree) for (size_t i = 0; i < real.size(); i++) { auto &r = real[i]; if (!r.empty() && fits(i, x.first) && x.first.compare(0, x.first.rfind('/'), r) == 0 && x.first.rfind('/') == r.size() && x.first != m.path && tempOf(m.path, x.first) && same(x.second, tree[m.path], compared)) { bool used = false; for (auto &o : open) used |= o.path == x.first; if (used) spared++; else gone.insert(x.first); } }
			if (few) { Tree now; walk(root, "", now); std::set<std::string> left; for (auto &g : gone) if (!now.count(g)) left.insert(g); gone = left; }
			CHECK(n == (int)gone.size(), "%d files reported deleted, %zu unused copies were there", n, gone.size()); for (auto &g : gone) tree.erase(g); deleted += gone.size();
			break; }
		case 3: { // someone starts using a file
			std::vector<std::string> c; for (auto &x : tree) c.push_back(x.first); std::string p = !temps.empty() && s.chance(3, 4) ? s.pick(temps) : s.pick(c); if (!tree.count(p)) break;
			if (s.chance(1, 4)) { int fd[2]; if (pipe(fd) != 0) abort(); int ready[2]; if (pipe(ready) != 0) abort();
				pid_t pid = fork(); if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); for (auto &x : open) if (x.f) close(fileno(x.f)); close(fd[1]); close(ready[0]); int f = ::open((root + p).c_str(), O_RDONLY); (void)f; (void)!write(ready[1], "r", 1); char b; (void)!read(fd[0], &b, 1); _exit(0); }
				close(fd[0]); close(ready[1]); char b; (void)!read(ready[0], &b, 1); close(ready[0]); open.push_back({ nullptr, p, pid, fd[1] }); label("used by another process");
			} else { std::string rel = s.chance(1, 2) ? root + p : ".." + p; open.push_back({ fopen(rel.c_str(), "rb"), p, 0, -1 }); if (!open.back().f) abort(); }
			log("in use: %s", p.c_str()); break; }
		case 4: if (!open.empty()) { size_t i = (size_t)s.below(open.size()); auto o = open[i]; open.erase(open.begin() + (long)i); if (o.f) fclose(o.f); else { close(o.pipe); kill(o.child, SIGKILL); waitpid(o.child, nullptr, 0); } log("no longer in use: %s", o.path.c_str()); } break;
		case 5: { // files of others, with the same bytes
			std::string b = baseOf(m.path), n; switch (s.below(13)) {
			case 9: case 10: case 11: { // nearly the name of a copy: each part right or a little wrong
				int wrong = (int)s.below(6); std::string sep1 = wrong == 0 ? s.pick(std::vector<std::string>{ "", "--", "_", " " }) : "-", num = wrong == 1 ? s.pick(std::vector<std::string>{ "", "-1", "1a", "0x1", "+5", " 7" }) : s.pick(std::vector<std::string>{ "0", "7", "12", "4194304", "18446744073709551616" }), sep2 = wrong == 2 ? s.pick(std::vector<std::string>{ "", "--", ".", "_" }) : "-", let = capitals(s);
				if (wrong == 3) { let[(size_t)s.below(20)] = s.pick(std::vector<char>{ '@', '[', 'a', 'z', '0', '-', '.' }); } else if (wrong == 4) let.resize((size_t)s.below(20)); else if (wrong == 5 && s.chance(1, 2)) let += s.chars("AZ", (size_t)s.range(1, 3));
				n = (s.chance(1, 8) ? b.substr(0, b.size() - 1) : s.chance(1, 8) ? "x" + b : b) + sep1 + num + sep2 + let; label("nearly a copy's name"); break; }
			case 12: n = std::string((size_t)s.range(40, 250), 'n'); break;
			case 0: n = b + "-backup"; break; case 1: n = b; break; case 2: n = b + "-12-ABC"; break; case 3: n = b + "-x1-" + capitals(s); break; case 4: n = b + "-12-" + capitals(s) + "Z"; break;
			case 5: n = b + "x-12-" + capitals(s); break; case 6: n = b + "-12-" + capitals(s) + ".dat"; break; case 7: n = b + "-99-" + capitals(s); break; default: n = b + "-12-abcdefghijklmnopqrst"; break; }
			std::string p = s.pick(dirs) + "/" + n; if (n.size() > 200 || s.chance(1, 4)) p = "/tmp1/" + n; if (n.empty() || tree.count(p)) break; std::string c = tree[m.path]; if (s.chance(1, 3) && !c.empty()) c[(size_t)s.below(c.size())] ^= 4; spit(root + p, c); tree[p] = c; log("someone's file %s", p.c_str()); break; }
		case 7: { // a copy by the older function, which gives it another name
			if (s.chance(1, 3)) { std::string n = s.chars("ABCXYZ", 19), p = s.pick(dirs) + "/" + n; if (!tree.count(p)) { spit(root + p, "someone's"); tree[p] = "someone's"; } nextLetters = n; log("%s is there already", p.c_str()); label("name taken"); }
			size_t first = real.size(); for (size_t i = 0; i < real.size() && first == real.size(); i++) if (!real[i].empty() && prefix(i).size() + 20 < 4096) first = i;
			size_t room = (first == real.size() ? 0 : prefix(first).size()) + 20; char *dest = (char *)malloc(room); memset(dest, 'Z', room);
			auto st = fiftyoneDegreesFileCreateTempFile(m.given.c_str(), pp, count, dest); log("plain copy of %s in%s: %d", m.path.c_str(), shown.c_str(), (int)st); nextLetters.clear();
			if (first == real.size()) { CHECK(st != FIFTYONE_DEGREES_STATUS_SUCCESS, "a copy in no usable directory"); label("copy refused"); }
			else {
				CHECK(st == FIFTYONE_DEGREES_STATUS_SUCCESS, "no copy of %zu bytes made: %d", tree[m.path].size(), (int)st); CHECK(memchr(dest, 0, room) != nullptr, "name not terminated"); std::string p = dest, n = nameOf(p), at = real[first] + "/" + n;
				CHECK(p == prefix(first) + n && n.size() == 19, "copy reported as %s", p.c_str()); for (char c : n) CHECK(c >= 'A' && c <= 'Z', "copy named %s", n.c_str());
				CHECK(!tree.count(at), "a file which was there was overwritten"); Tree now; walk(root, "", now); CHECK(now.count(at) && now[at] == tree[m.path], "the copy differs from its master"); tree[at] = now[at]; label("plain copy");
			}
			free(dest); break; }
		default: { // a copy or a master changes
			std::vector<std::string> c; for (auto &x : tree) c.push_back(x.first); std::string p = !temps.empty() && s.chance(1, 2) ? s.pick(temps) : s.pick(c); if (p == "/file" || !tree.count(p)) break; std::string &t = tree[p]; if (s.chance(1, 3)) t += "x"; else if (!t.empty()) { size_t at = (size_t)s.below(t.size()); if (t.size() > 1024 && s.chance(1, 2)) { at = (size_t)s.pick(std::vector<int>{ 999, 1000, 1001, 1023, 1024, 1025, 1999, 2000, 2047, 2048 }); if (at >= t.size()) at = t.size() - 1; } t[at] ^= 8; }
			FILE *f = fopen((root + p).c_str(), "r+b"); fwrite(t.data(), 1, t.size(), f); fclose(f); log("%s changes", p.c_str()); break; }
		}
		Tree now; walk(root, "", now);
		for (auto &x : tree) { CHECK(now.count(x.first), "%s is gone", x.first.c_str()); CHECK(now[x.first] == x.second, "%s was changed", x.first.c_str()); }
		for (auto &x : now) CHECK(tree.count(x.first), "%s appeared or was not deleted", x.first.c_str());
	}
	for (auto &o : open) if (o.f) fclose(o.f); else { close(o.pipe); kill(o.child, SIGKILL); waitpid(o.child, nullptr, 0); }
	if (chdir(before) != 0) abort();
	CHECK(coll::openFds() == fds, "%d descriptors left open", coll::openFds() - fds); alloc::expectNone("at the end"); clear(root);
	if (made > 0 && (deleted > 0 || reused > 0)) nontrivial();
	if (spared) label("in use spared");
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "A temporary copy of a master is a file named base-process-20 capitals as the library names them.", "Directories named like a temporary copy and two threads making a copy in the same nanosecond are not judged." };
	suite("history", history, 8000, 250000, "a copy was made and one was re-used or cleaned up");
	return runMain(argc, argv, o);
}
