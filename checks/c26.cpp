// C26: messages of status codes and exceptions.
#include "Exceptions.hpp"
#include "pbt.hpp"
#include "alloc.hpp"
#include "fiftyone.h"
using namespace pbt;
using namespace FiftyoneDegrees::Common;
namespace {
struct Known { int code; bool names; const char *phrase; };
#define K(c, n, p) { FIFTYONE_DEGREES_STATUS_##c, n, p }
// What each message is about, and whether it names the file.
const std::vector<Known> known = {
	K(SUCCESS, false, "successful"), K(INSUFFICIENT_MEMORY, false, "nsufficient memory"), K(CORRUPT_DATA, true, "correct format"),
	K(INCORRECT_VERSION, true, "version"), K(FILE_NOT_FOUND, true, "could not be found"), K(FILE_BUSY, true, "in use"), K(FILE_FAILURE, true, "unknown error"),
	K(POINTER_OUT_OF_BOUNDS, false, "smaller than expected"), K(NULL_POINTER, false, "ull pointer"), K(TOO_MANY_OPEN_FILES, true, "oo many file handles"),
	K(REQ_PROP_NOT_PRESENT, true, "properties requested"), K(PROFILE_EMPTY, false, "empty profile"), K(COLLECTION_FAILURE, true, "item from a collection"),
	K(FILE_COPY_ERROR, true, "copying"), K(FILE_EXISTS_ERROR, false, "already exists"), K(FILE_WRITE_ERROR, true, "write permissions"),
	K(FILE_READ_ERROR, false, "not read the file"), K(FILE_PERMISSION_DENIED, true, "ermission denied"), K(FILE_PATH_TOO_LONG, true, "longer than"),
	K(FILE_END_OF_DOCUMENT, false, "a Yaml document"), K(FILE_END_OF_DOCUMENTS, false, "Yaml documents"), K(FILE_END_OF_FILE, false, "nd of file"),
	K(ENCODING_ERROR, true, "encoding"), K(INVALID_COLLECTION_CONFIG, false, "valid collection"), K(INVALID_CONFIG, false, "not valid"),
	K(INSUFFICIENT_HANDLES, false, "nsufficient handles"), K(COLLECTION_INDEX_OUT_OF_RANGE, false, "ndex used"), K(COLLECTION_OFFSET_OUT_OF_RANGE, false, "ffset used"),
	K(COLLECTION_FILE_SEEK_FAIL, true, "seek"), K(COLLECTION_FILE_READ_FAIL, true, "read operation"), K(INCORRECT_IP_ADDRESS_FORMAT, false, "IP address"),
	K(TEMP_FILE_ERROR, false, "temporary file"),
};
const Known *find(int c) { for (auto &k : known) if (k.code == c) return &k; return nullptr; }
std::string take(const char *m, const char *what) {
	CHECK(m != nullptr, "no %s although memory is available", what);
	auto it = alloc::S().live.find((void *)m);
	CHECK(it != alloc::S().live.end(), "the %s was not allocated for the caller", what);
	CHECK(strnlen(m, it->second.size) < it->second.size, "the %s is not terminated in its memory", what);
	std::string r = m; fiftyoneDegreesFree((void *)m); return r;
}
std::string status(int c, const char *file) { return take(fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)c, file), "status message"); }
// The message around the name of the file: obtained with a name of one character which appears in no message.
void shape(int c, std::string &before, std::string &after, bool &names) {
	std::string m = status(c, "\x01"); size_t p = m.find('\x01');
	names = p != std::string::npos; before = m.substr(0, p); after = names ? m.substr(p + 1) : "";
	CHECK(after.find('\x01') == std::string::npos, "code %d: the name appears twice", c);
}
int anyCode(Src &s) {
	switch (s.weighted({ 6, 2, 1, 1 })) {
	case 0: return known[s.below(known.size())].code;
	case 1: return (int)s.range(-5, 60);
	case 2: { static const int e[] = { INT_MIN, INT_MAX, INT_MIN + 1, 1000000000, -1000000000, 999999999, -999999999, 99999, -99999, 100000, 65536, -1 }; return e[s.below(12)]; }
	default: return (int)(uint32_t)s.below(0);
	}
}
std::string anyName(Src &s) {
	size_t n = s.chance(1, 10) ? (size_t)s.range(4000, 70000) : (size_t)s.small(0, 300);
	std::string o;
	static const char *bits[] = { "%s", "%n", "%d", "%", "%%", "\\", "'", "/", "\xc3\xa9", "%500s" };
	char fill = (char)s.range(1, 255);
	while (o.size() < n) { if (s.chance(1, 8)) o += bits[s.below(10)]; else if (o.size() > 400) o.append(std::min<size_t>(n - o.size(), 1000), fill); else o += s.chance(3, 4) ? (char)s.range('a', 'z') : (char)s.range(1, 255); }
	return o;
}
// Known codes have messages of their own, others a message with their number.
void messages(Src &s) {
	alloc::begin();
	int c = anyCode(s), d = anyCode(s);
	bool null = s.chance(1, 8); std::string name = anyName(s);
	log("code %d and %d, file %s (%zu characters)%s", c, d, quote(name).c_str(), name.size(), null ? " NULL" : "");
	char *own = strdup(name.c_str());
	std::string m = status(c, null ? nullptr : own); free(own);
	if (null) name = "null";
	std::string before, after; bool names; shape(c, before, after, names);
	std::string want = names ? before + name + after : before;
	CHECK(m == want, "code %d: %s instead of %s", c, quote(m, 900).c_str(), quote(want, 900).c_str());
	const Known *k = find(c);
	if (k) {
		CHECK((before + after).find(k->phrase) != std::string::npos, "code %d: the message %s is not about that", c, quote(m, 600).c_str());
		CHECK(names == k->names, "code %d: the file is %snamed in %s", c, names ? "" : "not ", quote(m, 600).c_str());
		CHECK((before + after).find('%') == std::string::npos, "code %d: %s", c, quote(before + after, 600).c_str());
		if (names) label("names the file");
		if (names && (name.size() > 1000 || name.find('%') != std::string::npos)) nontrivial();
	} else {
		char num[16]; snprintf(num, sizeof num, "%d", c); size_t p = m.find(num);
		CHECK(p != std::string::npos && !isdigit((unsigned char)m[p + strlen(num)]), "code %d is not in %s", c, quote(m).c_str());
		std::string other = status(d, "x");
		if (!find(d)) { // the same text but for the number
			char n2[16]; snprintf(n2, sizeof n2, "%d", d); std::string w = m.substr(0, p) + n2 + m.substr(p + strlen(num));
			CHECK(other == w, "code %d: %s instead of %s", d, quote(other).c_str(), quote(w).c_str());
		}
		label("unknown code"); nontrivial();
	}
	if (c != d) CHECK(status(c, "f") != status(d, "f"), "codes %d and %d share the message %s", c, d, quote(m, 500).c_str());
	alloc::expectNone("afterwards");
}
void raisedHere(fiftyoneDegreesException *exception, int c) {
#line 70001 "some/where/raised.c"
	FIFTYONE_DEGREES_EXCEPTION_SET((fiftyoneDegreesStatusCode)c)
#line 90 "c26.cpp"
}
void exceptions(Src &s) {
	alloc::begin();
	int c = anyCode(s);
	std::string file = anyName(s), func = anyName(s);
	bool noFile = s.chance(1, 10), noFunc = s.chance(1, 10);
	static const int ends[] = { 0, -1, 1, 9, 10, INT_MAX, INT_MIN, 1000000000, 99999 };
	int line = s.chance(1, 3) ? ends[s.below(9)] : (int)s.small(0, 100000);
	log("code %d file %s func %s line %d%s%s", c, quote(file).c_str(), quote(func).c_str(), line, noFile ? " no file" : "", noFunc ? " no func" : "");
	fiftyoneDegreesException e; e.file = noFile ? nullptr : file.c_str(); e.func = noFunc ? nullptr : func.c_str(); e.line = line; e.status = (fiftyoneDegreesStatusCode)c;
	std::string m = take(fiftyoneDegreesExceptionGetMessage(&e), "exception message");
	// All four parts, in full and in order.
	char num[16]; snprintf(num, sizeof num, "%d", line);
	size_t at = 0; std::string st = status(c, nullptr);
	for (auto &part : std::vector<std::string>{ st, noFile ? "" : file, noFunc ? "" : func, num }) {
		size_t p = m.find(part, at);
		CHECK(p != std::string::npos, "%s is missing (or not in order) in %s", quote(part, 900).c_str(), quote(m, 2500).c_str());
		at = p + part.size();
	}
	CHECK(m.substr(at) == "\r\n", "the message ends with %s", quote(m.substr(at)).c_str());
	if (file.size() + func.size() > 500 || line > 1000000) nontrivial();
	if (noFile || noFunc) label("unknown source");
	CHECK(e.status == (fiftyoneDegreesStatusCode)c && e.line == line, "the exception changed");
	// The C++ exceptions say the same.
	{
		FatalException f(&e);
		CHECK(m == f.what() && f.getCode() == (fiftyoneDegreesStatusCode)c, "FatalException: code %d (%d), %s", (int)f.getCode(), c, quote(f.what(), 800).c_str());
		FatalException g(f);
		CHECK(m == g.what() && g.getCode() == f.getCode(), "the copied FatalException differs");
		StatusCodeException a((fiftyoneDegreesStatusCode)c), b((fiftyoneDegreesStatusCode)c, file.c_str());
		CHECK(a.what() == st && a.getCode() == (fiftyoneDegreesStatusCode)c, "StatusCodeException: code %d (%d), %s", (int)a.getCode(), c, quote(a.what(), 600).c_str());
		CHECK(b.what() == status(c, file.c_str()) && b.getCode() == (fiftyoneDegreesStatusCode)c, "StatusCodeException with a file: code %d (%d), %s", (int)b.getCode(), c, quote(b.what(), 600).c_str());
		bool threw = false;
		try { fiftyoneDegreesException *exception = &e; FIFTYONE_DEGREES_EXCEPTION_THROW; }
		catch (const StatusCodeException &t) { threw = true; CHECK(t.getCode() == (fiftyoneDegreesStatusCode)c && m == t.what(), "thrown: code %d (%d), %s", (int)t.getCode(), c, quote(t.what(), 600).c_str()); }
		CHECK(threw == (c != FIFTYONE_DEGREES_STATUS_NOT_SET), "an exception with status %d was %sthrown", c, threw ? "" : "not ");
	}
	{	// Where it is raised, from whatever the memory held before.
		fiftyoneDegreesException r, *exception = &r; memset(&r, 0xA5, sizeof r);
		FIFTYONE_DEGREES_EXCEPTION_CLEAR
		CHECK(FIFTYONE_DEGREES_EXCEPTION_OKAY && !(FIFTYONE_DEGREES_EXCEPTION_FAILED), "a cleared exception is not okay");
		std::string none = take(fiftyoneDegreesExceptionGetMessage(&r), "exception message");
		CHECK(none.find(status(FIFTYONE_DEGREES_STATUS_NOT_SET, nullptr)) != std::string::npos, "message of a cleared exception: %s", quote(none, 600).c_str());
		raisedHere(nullptr, c); raisedHere(&r, c);
		CHECK(r.status == (fiftyoneDegreesStatusCode)c && r.line == 70001 && strstr(r.file, "raised.c") && strstr(r.func, "raisedHere"), "raised with status %d (%d) in %s of %s, line %d", (int)r.status, c, r.func, r.file, r.line);
		CHECK((FIFTYONE_DEGREES_EXCEPTION_OKAY) == (c == FIFTYONE_DEGREES_STATUS_NOT_SET), "status %d is %s failure", c, c ? "no" : "a");
	}
	{	// A text given to the C++ exceptions is what they say.
		std::string t = file;
		CHECK(t == InvalidPropertyException(t.c_str()).what(), "InvalidPropertyException changes its message");
		CHECK(t == NoValuesAvailableException(t.c_str()).what(), "NoValuesAvailableException changes its message");
		CHECK(std::string(NoValuesAvailableException().what()) == NoValuesAvailableException(nullptr).what() && *NoValuesAvailableException().what(), "NoValuesAvailableException without message");
	}
	alloc::expectNone("afterwards");
}
// No memory: no message, and what was allocated is freed again.
void noMemory(Src &s) {
	alloc::begin();
	int c = anyCode(s), at = (int)s.below(3); bool all = s.chance(1, 2), exc = s.chance(1, 2);
	log("code %d, allocation %d%s fails, %s", c, at, all ? " and later ones" : "", exc ? "exception" : "status");
	fiftyoneDegreesException e; e.file = s.chance(1, 4) ? nullptr : "a.c"; e.func = s.chance(1, 4) ? nullptr : "f"; e.line = 3; e.status = (fiftyoneDegreesStatusCode)c;
	auto get = [&] { return exc ? fiftyoneDegreesExceptionGetMessage(&e) : fiftyoneDegreesStatusGetMessage((fiftyoneDegreesStatusCode)c, "x"); };
	std::string want = take(get(), "message");
	alloc::arm(at, all);
	const char *m = get();
	int failed = (int)alloc::S().failed; alloc::disarm();
	if (failed) { nontrivial(); label("failed allocation"); }
	else CHECK(m != nullptr, "no message although no allocation failed");
	if (m) {
		std::string g = take(m, "message");
		CHECK(g == want, "with failing allocations the message is %s instead of %s", quote(g, 600).c_str(), quote(want, 600).c_str());
	}
	alloc::expectNone("afterwards");
	if (exc) { alloc::arm(at, all); { FatalException f(&e); CHECK(f.getCode() == (fiftyoneDegreesStatusCode)c, "FatalException without memory: code %d instead of %d", (int)f.getCode(), c); StatusCodeException g((fiftyoneDegreesStatusCode)c); CHECK(g.getCode() == f.getCode(), "StatusCodeException without memory: code %d instead of %d", (int)g.getCode(), c); } alloc::disarm(); }
	alloc::expectNone("afterwards");
	CHECK(take(get(), "message") == want, "the message changed afterwards");
}
// The C way out: the message on the error stream and the status as exit code, or nothing at all.
void exits(Src &s) {
	int c = anyCode(s); std::string file = anyName(s);
	if (file.size() > 30000) file.resize(30000);
	log("code %d file %s", c, quote(file).c_str());
	fiftyoneDegreesException e; e.file = file.c_str(); e.func = "fn"; e.line = 12; e.status = (fiftyoneDegreesStatusCode)c;
	const char *mm = fiftyoneDegreesExceptionGetMessage(&e); std::string want = mm ? mm : ""; fiftyoneDegreesFree((void *)mm);
	int p[2]; if (pipe(p)) discard();
	pid_t pid = fork();
	if (pid == 0) {
		dup2(p[1], 2); setvbuf(stderr, nullptr, _IONBF, 0);
		fiftyoneDegreesExceptionCheckAndExit(&e);
		ssize_t r = write(p[1], "RETURNED", 8); (void)r; _exit(200);
	}
	close(p[1]);
	std::string got; char b[4096]; ssize_t n;
	while ((n = read(p[0], b, sizeof b)) > 0) got.append(b, (size_t)n);
	close(p[0]); int st = 0; waitpid(pid, &st, 0);
	if (c == FIFTYONE_DEGREES_STATUS_NOT_SET) { CHECK(got == "RETURNED" && WIFEXITED(st) && WEXITSTATUS(st) == 200, "no exception, but: %s", quote(got).c_str()); label("no exception"); return; }
	CHECK(WIFEXITED(st) && WEXITSTATUS(st) == (c & 255), "ended with %d for code %d", st, c);
	CHECK(got == want, "printed %s instead of %s", quote(got, 900).c_str(), quote(want, 900).c_str());
	nontrivial();
}
}
int main(int argc, char **argv) {
	alloc::install();
	suite("messages", messages, 40000, 4000000, "any code and file names of up to 70000 characters with formatting characters; non-trivial = an unknown code, or a long or formatting name that is inserted");
	suite("exceptions", exceptions, 30000, 3000000, "any code, source, function and line; non-trivial = more than 500 characters or a large line number");
	suite("noMemory", noMemory, 20000, 500000, "failing allocations; non-trivial = an allocation failed");
	suite("exits", exits, 1500, 40000, "the C way out in a child process; non-trivial = an exception was set");
	Options o; o.assumptions = { "a null file name is shown as null", "a text used as a whole name has no NUL" };
	return runMain(argc, argv, o);
}
