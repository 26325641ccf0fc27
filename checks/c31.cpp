// C31: all builds of the library give the same answers. Every script runs in each build; what it
// recorded there is compared with what the full build recorded.
#include "c31.hpp"
#include <dlfcn.h>
using namespace pbt;
namespace {
typedef std::string Str;
struct Build { Str name; bool exceptions; C31Run run; };
std::vector<Build> builds;
struct Chooser { Src *s; bool first; std::vector<std::pair<uint64_t, uint64_t>> made; size_t pos; const char *build; };
uint64_t choose(void *st, uint64_t n) {
	Chooser *c = (Chooser *)st;
	if (c->first) { uint64_t v = c->s->below(n); c->made.push_back({ n, v }); return v; }
	if (c->pos >= c->made.size() || c->made[c->pos].first != n) fail("the script took another way in the %s build (choice %zu)", c->build, c->pos);
	return c->made[c->pos++].second;
}
Str where(const Str &a, const Str &b) { // the first line that differs
	size_t i = 0, line = 1, start = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) { if (a[i] == '\n') { line++; start = i + 1; } i++; }
	auto cut = [&](const Str &x) { size_t e = x.find('\n', start); return quote(x.substr(start, e == Str::npos ? Str::npos : e - start)); };
	return "line " + std::to_string(line) + ": " + cut(a) + " became " + cut(b);
}
void script(Src &s) {
	Chooser c{ &s, true, {}, 0, "" }; Str first, firstStatuses; bool useful = false;
	for (auto &b : builds) {
		C31Call call; memset(&call, 0, sizeof call); c.pos = 0; c.build = b.name.c_str(); call.choose = choose; call.chooser = &c; call.slot = G().slot; call.scratch = G().scratch.c_str(); call.quiet = !c.first;
		if (!c.first) { fprintf(stderr, "in the %s build\n", b.name.c_str()); }
		b.run(&call);
		if (c.first) { first = call.trace; firstStatuses = call.statuses; useful = call.nontrivial != 0; Str l; for (const char *p = call.labels; *p; p++) if (*p == '\n') { label(l); l.clear(); } else l += *p; c.first = false; continue; }
		if (c.pos != c.made.size()) fail("the script took another way in the %s build", b.name.c_str());
		if (first != call.trace) fail("the %s build gives other results, %s", b.name.c_str(), where(first, call.trace).c_str());
		if (b.exceptions && firstStatuses != call.statuses) fail("the %s build reports other statuses, %s", b.name.c_str(), where(firstStatuses, call.statuses).c_str());
	}
	if (useful) nontrivial();
}
}
int main(int argc, char **argv) {
	char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n < 0) return 2; self[n] = 0; Str dir = self; dir = dir.substr(0, dir.rfind('/'));
	for (auto &v : { std::make_pair("full", true), { "release", true }, { "memory-only", true }, { "single-threaded", true }, { "cache-validate", true }, { "without-exceptions", false }, { "smallest", false } }) {
		Str so = dir + "/" + v.first + ".so"; void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
		C31Run r = (C31Run)dlsym(h, "c31_run"); if (!r) { fprintf(stderr, "%s\n", dlerror()); return 2; } builds.push_back({ v.first, v.second, r });
	}
	Options o; o.assumptions = { "Requests that are to be refused are left out in the builds without exceptions, which are documented to make no checks.", "Errors are compared by status, not by message." };
	suite("script", script, 30000, 3000000, "several operations which succeed with results to compare");
	return runMain(argc, argv, o);
}
