// A data set type as a product using this library has, and generated contents for it.
#pragma once
#include "coll.hpp"
#include <sys/stat.h>
#include <dirent.h>
using namespace pbt;
typedef fiftyoneDegreesStatusCode Status;
struct ProbeBase { fiftyoneDegreesDataSetBase b; };
// Names of properties and headers are in a collection of strings.
struct DataSetProbe { ProbeBase b; fiftyoneDegreesCollection *strings, *numbers; void *extra; uint32_t serial, properties, headers; };
struct ProbeConfig { fiftyoneDegreesConfigBase b; fiftyoneDegreesCollectionConfig strings, numbers; uint16_t concurrency; bool overridable; };
extern "C" {
Status initProperties(fiftyoneDegreesDataSetBase *, fiftyoneDegreesPropertiesRequired *, void *, fiftyoneDegreesPropertiesGetMethod, fiftyoneDegreesEvidencePropertiesGetMethod) asm("fiftyoneDegreesDataSetInitProperties");
Status initHeaders(fiftyoneDegreesDataSetBase *, void *, fiftyoneDegreesHeadersGetMethod) asm("fiftyoneDegreesDataSetInitHeaders");
Status initFromFile(fiftyoneDegreesDataSetBase *, const char *, long) asm("fiftyoneDegreesDataSetInitFromFile");
Status initInMemory(fiftyoneDegreesDataSetBase *, fiftyoneDegreesMemoryReader *) asm("fiftyoneDegreesDataSetInitInMemory");
void setReset(fiftyoneDegreesDataSetBase *) asm("fiftyoneDegreesDataSetReset");
fiftyoneDegreesOverridePropertyArray *overridesCreate(fiftyoneDegreesPropertiesAvailable *, bool, void *, fiftyoneDegreesOverridesFilterMethod) asm("fiftyoneDegreesOverridePropertiesCreate");
void setFree(fiftyoneDegreesDataSetBase *) asm("fiftyoneDegreesDataSetFree");
Status reloadMemory(fiftyoneDegreesResourceManager *, void *, long, size_t, fiftyoneDegreesDataSetInitFromMemoryMethod, fiftyoneDegreesException *) asm("fiftyoneDegreesDataSetReloadManagerFromMemory");
Status reloadFile(fiftyoneDegreesResourceManager *, const char *, size_t, fiftyoneDegreesDataSetInitFromFileMethod, fiftyoneDegreesException *) asm("fiftyoneDegreesDataSetReloadManagerFromFile");
}
namespace {
typedef std::string Str;
const uint32_t MAGIC = 0x51DA7A5Eu;
void dispose(DataSetProbe *d) { // everything but the structure
	setFree(&d->b.b);
	if (d->strings) { d->strings->freeCollection(d->strings); d->strings = nullptr; }
	if (d->numbers) { d->numbers->freeCollection(d->numbers); d->numbers = nullptr; }
	if (d->extra) { fiftyoneDegreesFree(d->extra); d->extra = nullptr; }
}
void freeProbe(void *p) { dispose((DataSetProbe *)p); fiftyoneDegreesFree(p); }
void resetProbe(DataSetProbe *d, const void *config) { setReset(&d->b.b); d->strings = d->numbers = nullptr; d->extra = nullptr; d->serial = d->properties = d->headers = 0; d->b.b.config = config; }
bool unread = false; // a name could not be read
fiftyoneDegreesString *stringAt(DataSetProbe *d, uint32_t index, fiftyoneDegreesCollectionItem *item, fiftyoneDegreesException *exception) {
	fiftyoneDegreesCollectionItem n; fiftyoneDegreesDataReset(&n.data); n.handle = nullptr; n.collection = nullptr;
	uint32_t *o = (uint32_t *)d->numbers->get(d->numbers, index, &n, exception); if (o == nullptr) return nullptr;
	uint32_t offset; memcpy(&offset, o, 4); coll::release(d->numbers, &n);
	return fiftyoneDegreesStringGet(d->strings, offset, item, exception);
}
fiftyoneDegreesString *getProperty(void *st, uint32_t index, fiftyoneDegreesCollectionItem *item) { DataSetProbe *d = (DataSetProbe *)st; if (index >= d->properties) return nullptr; FIFTYONE_DEGREES_EXCEPTION_CREATE auto *r = stringAt(d, index, item, exception); if (r == nullptr) unread = true; return r; }
// The evidence of a property follows from its position and the data set's number. If the number has the bit for it, fewer are given than were announced.
const uint32_t EVIDENCE_SHORT = 0x40000000u;
uint32_t evidenceOf(uint32_t serial, uint32_t property) { return (property + serial) % 4; }
uint32_t getEvidence(void *st, fiftyoneDegreesPropertyAvailable *p, fiftyoneDegreesEvidenceProperties *e) {
	DataSetProbe *d = (DataSetProbe *)st; uint32_t n = evidenceOf(d->serial, p->propertyIndex);
	if (d->serial & EVIDENCE_SHORT && e == nullptr) return n + 1;
	if (e) for (uint32_t i = 0; i < n; i++) e->items[i] = p->propertyIndex * 10 + i;
	return n;
}
bool mayOverride(void *st, uint32_t index) { DataSetProbe *d = (DataSetProbe *)st; return (index + d->serial) % 3 != 0; }
long getHeader(void *st, uint32_t index, fiftyoneDegreesCollectionItem *item) { DataSetProbe *d = (DataSetProbe *)st; if (index >= d->headers) return -1; FIFTYONE_DEGREES_EXCEPTION_CREATE if (stringAt(d, d->properties + index, item, exception) == nullptr) { unread = true; return -1; } return (long)index; }
Status names(DataSetProbe *d, fiftyoneDegreesPropertiesRequired *required) {
	d->extra = fiftyoneDegreesMalloc(24); if (d->extra == nullptr) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
	unread = false; Status st = initHeaders(&d->b.b, d, getHeader); if (unread) return FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE; if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) return st;
	st = initProperties(&d->b.b, required, d, getProperty, getEvidence);
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS || unread) return st == FIFTYONE_DEGREES_STATUS_SUCCESS ? FIFTYONE_DEGREES_STATUS_COLLECTION_FAILURE : st;
	if (((const ProbeConfig *)d->b.b.config)->overridable) {
		uint32_t n = 0; for (uint32_t i = 0; i < d->b.b.available->count; i++) n += mayOverride(d, i);
		d->b.b.overridable = overridesCreate(d->b.b.available, true, d, mayOverride); if (d->b.b.overridable == nullptr && n > 0) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_MEMORY;
	}
	return st;
}
Status fromReader(DataSetProbe *d, fiftyoneDegreesMemoryReader *r, fiftyoneDegreesPropertiesRequired *required) {
	d->b.b.isInMemory = true;
	if (r->length < 16) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	uint32_t h[4]; memcpy(h, r->current, 16); r->current += 16;
	if (h[0] != MAGIC) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	d->serial = h[1]; d->properties = h[2]; d->headers = h[3];
	d->numbers = fiftyoneDegreesCollectionCreateFromMemory(r, fiftyoneDegreesCollectionHeaderFromMemory(r, 4, true));
	if (d->numbers == nullptr) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	d->strings = fiftyoneDegreesCollectionCreateFromMemory(r, fiftyoneDegreesCollectionHeaderFromMemory(r, 0, false));
	if (d->strings == nullptr || r->current != r->lastByte) return FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	return names(d, required);
}
Status initDataSetFromMemory(void *set, const void *config, fiftyoneDegreesPropertiesRequired *required, void *memory, long size, fiftyoneDegreesException *) {
	DataSetProbe *d = (DataSetProbe *)set; resetProbe(d, config);
	if (((const ProbeConfig *)config)->b.freeData) d->b.b.memoryToFree = memory;
	fiftyoneDegreesMemoryReader r; r.startByte = r.current = (byte *)memory; r.length = size; r.lastByte = r.current + size;
	Status st = fromReader(d, &r, required);
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) { d->b.b.memoryToFree = nullptr; dispose(d); }
	return st;
}
Status streamed(DataSetProbe *d, const ProbeConfig *c, fiftyoneDegreesPropertiesRequired *required, fiftyoneDegreesException *exception) {
	fiftyoneDegreesDataSetBase *b = &d->b.b;
	Status st = fiftyoneDegreesFilePoolInit(&b->filePool, b->fileName, c->concurrency, exception); if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) return st;
	fiftyoneDegreesFileHandle *h = fiftyoneDegreesFileHandleGet(&b->filePool, exception); if (h == nullptr) return FIFTYONE_DEGREES_STATUS_INSUFFICIENT_HANDLES;
	uint32_t v[4];
	st = FIFTYONE_DEGREES_STATUS_CORRUPT_DATA;
	if (fseek(h->file, 0, SEEK_SET) == 0 && fread(v, 4, 4, h->file) == 4 && v[0] == MAGIC) {
		d->serial = v[1]; d->properties = v[2]; d->headers = v[3];
		d->numbers = fiftyoneDegreesCollectionCreateFromFile(h->file, &b->filePool, &c->numbers, fiftyoneDegreesCollectionHeaderFromFile(h->file, 4, true), fiftyoneDegreesCollectionReadFileFixed);
		if (d->numbers) d->strings = fiftyoneDegreesCollectionCreateFromFile(h->file, &b->filePool, &c->strings, fiftyoneDegreesCollectionHeaderFromFile(h->file, 0, false), readString);
		if (d->strings) { long here = ftell(h->file); if (here == b->filePool.length) st = FIFTYONE_DEGREES_STATUS_SUCCESS; }
	}
	fiftyoneDegreesFileHandleRelease(h);
	return st == FIFTYONE_DEGREES_STATUS_SUCCESS ? names(d, required) : st;
}
long compared = -1; // bytes compared when a copy may be used again
Status initDataSetFromFile(void *set, const void *config, fiftyoneDegreesPropertiesRequired *required, const char *fileName, fiftyoneDegreesException *exception) {
	DataSetProbe *d = (DataSetProbe *)set; const ProbeConfig *c = (const ProbeConfig *)config; resetProbe(d, config);
	Status st = initFromFile(&d->b.b, fileName, compared);
	if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) {
		if (c->b.allInMemory) { fiftyoneDegreesMemoryReader r; st = initInMemory(&d->b.b, &r); if (st == FIFTYONE_DEGREES_STATUS_SUCCESS) st = fromReader(d, &r, required); }
		else st = streamed(d, c, required, exception);
	}
	if (st != FIFTYONE_DEGREES_STATUS_SUCCESS) freeProbe(d);
	return st;
}
DataSetProbe *fiftyoneDegreesDataSetProbeGet(fiftyoneDegreesResourceManager *m) { return (DataSetProbe *)fiftyoneDegreesDataSetGet(m); }
void fiftyoneDegreesDataSetProbeRelease(DataSetProbe *d) { fiftyoneDegreesDataSetRelease(&d->b.b); }
#define fiftyoneDegreesDataSetReloadManagerFromMemory reloadMemory
#define fiftyoneDegreesDataSetReloadManagerFromFile reloadFile
FIFTYONE_DEGREES_DATASET_RELOAD(Probe)

// ---- the model
struct Content { uint32_t serial; std::vector<Str> properties, headers; Str bytes; bool ok = true; };
Str low(Str s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c = (char)(c + 32); return s; }
std::vector<Str> distinct(Src &s, size_t n) { std::set<Str> seen; std::vector<Str> r; for (size_t i = 0; i < n; i++) { Str w = s.chars("abCD-", (size_t)s.range(2, 9)); if (seen.insert(low(w)).second) r.push_back(w); } return r; }
bool hundreds = false; // there is room for that many in the caches
Content make(Src &s, uint32_t serial, const Content *like) {
	int large = s.chance(1, 40) ? (int)s.range(1, 3) : 0; if (large < 3 && !hundreds) large = 0; static const char *kind[] = { "", "hundreds of properties", "hundreds of headers", "large files" }; if (large) label(kind[large]);
	Content c; c.serial = serial; c.properties = like ? like->properties : distinct(s, large == 1 ? (size_t)s.range(260, 320) : (size_t)s.range(1, 6));
	if (like) { for (auto &x : distinct(s, (size_t)s.below(3))) { bool have = false; for (auto &y : c.properties) have |= low(y) == low(x); if (!have) c.properties.push_back(x); } for (size_t i = c.properties.size(); i > 1; i--) std::swap(c.properties[i - 1], c.properties[s.below(i)]); }
	c.headers = distinct(s, large == 2 ? (size_t)s.range(260, 320) : (size_t)s.below(6));
	coll::Body strings = coll::variableData(nullptr); std::vector<uint32_t> at;
	if (s.chance(1, 3)) coll::addString(strings, s.chars("xyz", (size_t)s.below(300)));
	if (large == 3) for (size_t k = (size_t)s.range(1, 5); k-- > 0;) coll::addString(strings, coll::plentyText(s, (size_t)s.range(20000, 32766)));
	for (auto &p : c.properties) at.push_back(coll::addString(strings, p));
	for (auto &p : c.headers) at.push_back(coll::addString(strings, p));
	Str &b = c.bytes; coll::put32(b, MAGIC); coll::put32(b, serial); coll::put32(b, (uint32_t)c.properties.size()); coll::put32(b, (uint32_t)c.headers.size());
	coll::put32(b, (uint32_t)at.size()); for (auto a : at) coll::put32(b, a);
	coll::put32(b, (uint32_t)strings.body.size()); b += strings.body; return c;
}
Str slurp(const Str &p) { Str r; FILE *f = fopen(p.c_str(), "rb"); if (f == nullptr) return r; char b[8192]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); return r; }
void spit(const Str &p, const Str &c) { FILE *f = fopen(p.c_str(), "wb"); if (!f || fwrite(c.data(), 1, c.size(), f) != c.size()) { perror(p.c_str()); abort(); } fclose(f); }
std::vector<Str> list(const Str &d) { std::vector<Str> r; DIR *h = opendir(d.c_str()); if (!h) return r; dirent *e; while ((e = readdir(h)) != nullptr) if (e->d_name[0] != '.') r.push_back(d + "/" + e->d_name); closedir(h); return r; }
void clear(const Str &d) { for (auto &p : list(d)) { struct stat st; if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) clear(p); else unlink(p.c_str()); } rmdir(d.c_str()); }
}
