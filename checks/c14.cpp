// C14: text files line by line.
#include "pbt.hpp"
#include "fiftyone.h"
#include "textfile.h"
using namespace pbt;
namespace {
struct Got { std::vector<std::string> lines; const char *lo, *hi; size_t limit; };
void onLine(const char *l, void *st) {
	Got *g = (Got *)st;
	CHECK(l >= g->lo && l < g->hi, "the line does not lie in the buffer");
	g->lines.push_back(l);
	CHECK(g->lines.size() <= g->limit, "%zu lines delivered, limit is %zu", g->lines.size(), g->limit);
}
std::string path() { return G().scratch + "/t" + std::to_string(getpid()); }
void write(const std::string &c) {
	FILE *f = fopen(path().c_str(), "wb");
	if (!f) { discard(); return; }
	if (!c.empty() && fwrite(c.data(), 1, c.size(), f) != c.size()) discard();
	fclose(f);
}
int descriptors() { int n = 0; for (int fd = 3; fd < 64; fd++) n += fcntl(fd, F_GETFD) >= 0; return n; }
void lines(Src &s) {
	std::string content; std::vector<std::string> want; size_t longest = 0;
	size_t n = (size_t)s.small(0, 30);
	int large = s.chance(1, 80) ? (int)s.range(1, 2) : s.chance(1, 1500) ? (int)s.range(3, 4) : 0;
	static const char *kind[] = { "", "hundreds of lines", "lines of hundreds of bytes", "tens of thousands of lines", "lines of tens of thousands of bytes" }; if (large) label(kind[large]);
	if (large == 1) n = (size_t)s.range(250, 700); else if (large == 3) n = (size_t)s.range(65500, 67000); else if (large == 4) n = (size_t)s.range(1, 5);
	uint64_t seed = large ? s.below(1ull << 32) : 0;
	static const char *eol[] = { "\n", "\r\n", "\n\n", "\r", "\r\n\r\n", "\n\r\n\n" };
	int style = (int)s.below(4); bool nuls = s.chance(1, 5); if (nuls) label("lines with NUL bytes");
	if (s.chance(1, 6)) content += eol[s.below(6)];
	for (size_t i = 0; i < n; i++) {
		size_t len = large == 3 ? (size_t)(1 + mix(seed + i) % 6) : (size_t)s.small(1, 24);
		if (large == 2 && s.chance(1, 3)) len = (size_t)s.range(250, 700);
		if (large == 4 && (i == 0 || s.chance(1, 2))) len = (size_t)(s.chance(1, 2) ? s.range(32760, 33000) : s.range(65500, 67000));
		std::string l; if (len > 700 || large == 3) for (size_t k = 0; k < len; k++) l += (char)('a' + mix(seed + i + k) % 26);
		else for (size_t k = 0; k < len; k++) { char c = s.chance(1, 12) ? (char)s.range(nuls ? 0 : 1, nuls && s.chance(1, 2) ? 1 : 255) : (char)('a' + (i + k) % 26); if (c == '\r' || c == '\n') c = ' '; l += c; }
		content += l; want.push_back(l); longest = std::max(longest, len);
		if (i + 1 < n || s.chance(2, 3)) content += style == 0 ? "\n" : style == 1 ? "\r\n" : eol[large == 3 ? (size_t)(mix(seed ^ i) % 6) : s.below(6)];
	}
	size_t length = longest + 1 + (size_t)s.small(0, 60);
	if (s.chance(1, 4) && content.size() > longest) length = content.size() + s.below(3);
	int limit = s.chance(1, 2) ? -1 : (int)s.range(0, (int64_t)n + 2);
	bool missing = s.chance(1, 30);
	if (large && s.chance(1, 2)) length = longest + 1 + (size_t)s.range(60, 70000);
	log("content %s buffer %zu limit %d%s", quote(content.substr(0, 20000)).c_str(), length, limit, missing ? " (missing file)" : "");
	if (missing) { unlink(path().c_str()); want.clear(); label("missing file"); }
	else write(content);
	if (limit >= 0 && want.size() > (size_t)limit) { want.resize((size_t)limit); label("limit reached"); }
	char *buf = (char *)malloc(length); memset(buf, s.chance(1, 2) ? '\n' : 'Q', length);
	// A canary on both sides as well as the sanitizer's red zones.
	int fds0 = descriptors();
	Got g; g.lo = buf; g.hi = buf + length; g.limit = limit < 0 ? want.size() : (size_t)limit;
	if (limit < 0 && s.chance(1, 2)) fiftyoneDegreesTextFileIterate(path().c_str(), buf, (int)length, &g, onLine);
	else fiftyoneDegreesTextFileIterateWithLimit(path().c_str(), buf, (int)length, limit, &g, onLine);
	free(buf);
	for (size_t i = 0; i < std::max(want.size(), g.lines.size()); i++) {
		CHECK(i < g.lines.size(), "line %zu %s was not delivered", i, quote(want[i]).c_str());
		CHECK(i < want.size(), "line %s was invented", quote(g.lines[i]).c_str());
		want[i].resize(strlen(want[i].c_str())); // all that a string can show of a line with NUL bytes
		CHECK(want[i] == g.lines[i], "line %zu is %s instead of %s", i, quote(g.lines[i]).c_str(), quote(want[i]).c_str());
	}
	if (content.empty()) label("empty file");
	if (length < content.size()) { label("several buffers"); if (n > 2) nontrivial(); }
	if (length == content.size()) label("buffer as long as the file");
	if (length == longest + 1) label("tightest buffer");
	CHECK(descriptors() == fds0, "%d descriptors open, %d before", descriptors(), fds0);
}
// Arbitrary bytes and a buffer possibly too small: nothing outside the buffer is touched and it ends.
void anyBytes(Src &s) {
	size_t n = (size_t)s.small(0, 200);
	std::string c; for (size_t i = 0; i < n; i++) c += s.chance(1, 3) ? "\r\n\n\0"[s.below(4)] : (char)s.below(256);
	size_t length = (size_t)s.small(1, 64);
	log("content %s buffer %zu", quote(c).c_str(), length);
	write(c);
	char *buf = (char *)malloc(length);
	int fds0 = descriptors();
	Got g; g.lo = buf; g.hi = buf + length; g.limit = SIZE_MAX;
	fiftyoneDegreesTextFileIterate(path().c_str(), buf, (int)length, &g, onLine);
	free(buf);
	CHECK(descriptors() == fds0, "%d descriptors open, %d before", descriptors(), fds0);
	CHECK(g.lines.size() <= c.size(), "more lines than bytes");
	if (length < n) nontrivial();
}
}
int main(int argc, char **argv) {
	suite("lines", lines, 60000, 2000000, "random lines, line endings (also repeated and leading), tight to roomy buffers, limits, missing files; non-trivial = more than two lines over several buffers");
	suite("anyBytes", anyBytes, 30000, 1000000, "arbitrary bytes with any buffer size; non-trivial = file longer than the buffer");
	Options o; o.assumptions = { "lines are the non-empty runs between CR and LF characters: blank lines are skipped, as the code has always done inside a buffer", "a line which contains NUL bytes is one line, of which the callback's string shows the part before the first" };
	return runMain(argc, argv, o);
}
