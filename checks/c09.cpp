// C09: resource managers over every history of use, replacement and release.
#include "pbt.hpp"
#include "alloc.hpp"
#include "resource.h"
#include <memory>
using namespace pbt;
namespace {
struct Res { uint32_t tag; int id; fiftyoneDegreesResourceHandle *handle; };
struct Model { std::vector<Res *> all; std::vector<int> freed; std::vector<int> users; };
Model *M;
void freeRes(void *p) {
	if (p == nullptr) return;
	Res *r = (Res *)p;
	CHECK(r->tag == 0xFEEDF00Du, "something that is no resource, or one that was already freed, is freed");
	CHECK(++M->freed[(size_t)r->id] == 1, "resource %d is freed twice", r->id);
	free(r);
}
struct Holder { fiftyoneDegreesResourceHandle *h; int id; };
struct Crowd { Holder h; int n; };
struct Manager { fiftyoneDegreesResourceManager *m = nullptr; int active = -1; std::vector<Holder> held; std::vector<Crowd> crowds; bool freed = false; };
Res *make() { Res *r = (Res *)malloc(sizeof(Res)); r->tag = 0xFEEDF00Du; r->id = (int)M->all.size(); r->handle = (fiftyoneDegreesResourceHandle *)(uintptr_t)0x5A5A5A5A; M->all.push_back(r); M->freed.push_back(0); M->users.push_back(0); return r; }
void history(Src &s) {
	alloc::begin(); Model model; M = &model;
	size_t n = s.chance(1, 3) ? (size_t)s.range(2, 3) : 1;
	std::vector<std::unique_ptr<Manager>> ms; std::vector<bool> expect; // expected to be freed
	size_t handles = 0; int replacedInUse = 0, oldReleased = 0, failedReplace = 0;
	auto verify = [&] (const char *when) {
		expect.resize(M->all.size(), false);
		for (size_t i = 0; i < M->all.size(); i++) CHECK((M->freed[i] == 1) == expect[i], "resource %zu is %s freed %s (users %d)", i, M->freed[i] ? "already" : "not", when, M->users[i]);
		for (auto &m : ms) {
			for (auto &h : m->held) {
				const Res *r = (const Res *)h.h->resource;
				CHECK(r == M->all[(size_t)h.id] && r->tag == 0xFEEDF00Du && r->id == h.id, "a user sees another resource than the one acquired %s", when);
				CHECK(fiftyoneDegreesResourceHandleGetUse(h.h) == M->users[(size_t)h.id], "use count %d with %d users %s", fiftyoneDegreesResourceHandleGetUse(h.h), M->users[(size_t)h.id], when);
			}
			if (!m->freed && m->active >= 0) CHECK(fiftyoneDegreesResourceHandleGetUse(M->all[(size_t)m->active]->handle) == M->users[(size_t)m->active], "use count of the active resource %s", when);
		}
		alloc::expectCount(handles, when);
	};
	CHECK(fiftyoneDegreesResourceHandleGetUse(nullptr) == 0, "no handle has users");
	auto leave = [&] (Manager &m, const char *) { // the active resource is no longer active
		size_t a = (size_t)m.active; expect.resize(M->all.size(), false);
		if (M->users[a] == 0) { expect[a] = true; handles--; } else replacedInUse++;
	};
	auto init = [&] {
		ms.emplace_back(new Manager); Manager &m = *ms.back();
		m.m = (fiftyoneDegreesResourceManager *)malloc(sizeof *m.m); memset(m.m, 0xC3, sizeof *m.m);
		bool oom = s.chance(1, 15); Res *r = make(); m.active = r->id;
		if (oom) {
			alloc::arm(0, false); fiftyoneDegreesResourceManagerInit(m.m, r, &r->handle, freeRes); alloc::disarm();
			CHECK(r->handle == nullptr, "a handle was given without memory for it"); CHECK(M->freed[(size_t)r->id] == 0, "the caller's resource was freed");
			verify("after a failed start"); label("no memory at start");
		}
		fiftyoneDegreesResourceManagerInit(m.m, r, &r->handle, freeRes); handles++;
		CHECK(r->handle != nullptr && r->handle->resource == r && r->handle->manager == m.m, "the resource was not put under management");
		log("manager %zu starts with resource %d", ms.size() - 1, r->id);
	};
	while (ms.size() < n) init();
	verify("after the start");
	auto release = [&] (Manager &m, size_t k) {
		Holder h = m.held[k]; m.held.erase(m.held.begin() + (long)k);
		bool last = --M->users[(size_t)h.id] == 0 && (m.freed || m.active != h.id);
		expect.resize(M->all.size(), false);
		if (last) { expect[(size_t)h.id] = true; handles--; oldReleased++; }
		log("release %d", h.id);
		fiftyoneDegreesResourceHandleDecUse(h.h);
		verify("after a release");
	};
	auto disperse = [&] (Manager &m, size_t k) { // all of a crowd but one, who leaves like anybody else
		Crowd c = m.crowds[k]; m.crowds.erase(m.crowds.begin() + (long)k); log("%d of %d leave", c.n - 1, c.h.id);
		for (int i = 1; i < c.n; i++) { fiftyoneDegreesResourceHandleDecUse(c.h.h); M->users[(size_t)c.h.id]--; }
		verify("after a crowd left"); m.held.push_back(c.h); release(m, m.held.size() - 1);
	};
	size_t steps = (size_t)s.range(1, 70); int useBias = (int)s.below(3);
	for (size_t k = 0; k < steps; k++) {
		Manager &m = *ms[(size_t)s.below(ms.size())];
		switch (s.weighted({ 40, 20 + 10 * useBias, 20, 10, 10, 1, 1 })) {
		case 0: if (!m.freed) {
			fiftyoneDegreesResourceHandle *h = fiftyoneDegreesResourceHandleIncUse(m.m);
			CHECK(h == M->all[(size_t)m.active]->handle && h->resource == M->all[(size_t)m.active], "acquiring did not give the newest resource");
			M->users[(size_t)m.active]++; m.held.push_back({ h, m.active }); log("acquire %d", m.active); verify("after acquiring"); } break;
		case 1: if (!m.held.empty()) release(m, (size_t)s.below(m.held.size())); break;
		case 2: if (!m.freed) {
			Res *r = make(); leave(m, ""); m.active = r->id; handles++; log("replace with %d", r->id);
			fiftyoneDegreesResourceReplace(m.m, r, &r->handle);
			CHECK(r->handle != nullptr && r->handle->resource == r, "the new resource was not put under management");
			verify("after a replacement"); } break;
		case 3: if (!m.freed) {
			Res *r = make(); log("replacement %d without memory", r->id); label("replacement without memory"); failedReplace++;
			alloc::arm(0, false); fiftyoneDegreesResourceReplace(m.m, r, &r->handle); alloc::disarm();
			CHECK(r->handle == nullptr, "a handle was given without memory for it");
			verify("after a failed replacement"); } break;
		case 5: if (!m.freed && m.crowds.size() < 3) { // many users at a time
			int n = s.pick(std::vector<int>{ 200, 300, 40000, 70000 }); Res *r = M->all[(size_t)m.active]; log("%d acquire %d", n, m.active); label("many users");
			for (int i = 0; i < n; i++) CHECK(fiftyoneDegreesResourceHandleIncUse(m.m) == r->handle, "acquiring did not give the newest resource");
			M->users[(size_t)m.active] += n; m.crowds.push_back({ { r->handle, m.active }, n }); verify("after many acquired"); } break;
		case 6: if (!m.crowds.empty()) disperse(m, (size_t)s.below(m.crowds.size())); break;
		default: if (!m.freed && s.chance(1, 4)) { // shut down while there may be users
			bool oom = s.chance(1, 3); leave(m, ""); m.freed = true; log("manager is freed with %zu users", m.held.size()); label(m.held.empty() ? "freed unused" : "freed in use");
			if (oom) { alloc::arm(0, true); label("freed without memory"); }
			fiftyoneDegreesResourceManagerFree(m.m); alloc::disarm();
			verify("after the manager was freed"); } break;
		}
	}
	if (replacedInUse > 1 && oldReleased > 0) nontrivial();
	for (auto &m : ms) if (!m->freed) { leave(*m, ""); m->freed = true; fiftyoneDegreesResourceManagerFree(m->m); verify("after the manager was freed"); }
	for (auto &m : ms) while (!m->crowds.empty()) disperse(*m, 0);
	for (auto &m : ms) while (!m->held.empty()) release(*m, (size_t)s.below(m->held.size()));
	alloc::expectNone("after everybody left");
	for (size_t i = 0; i < M->all.size(); i++) if (M->freed[i] == 0) free(M->all[i]);
	for (auto &m : ms) free(m->m);
}
}
int main(int argc, char **argv) {
	Options o; o.assumptions = { "Schedules are decided by C10; here one thread acts.", "The manager's own memory outlives its users." };
	suite("history", history, 60000, 9000000, "resources were replaced while in use and released later");
	return runMain(argc, argv, o);
}
