// C03: the ordered tree against a std::map over generated histories.
#include "pbt.hpp"
extern "C" {
#include "tree.h" // has no C++ guard of its own
}
#include "fiftyone.h"
using namespace pbt;
namespace {
typedef fiftyoneDegreesTreeNode Node; typedef fiftyoneDegreesTreeRoot Root;
struct Seen { std::map<Node *, int> n; };
void collect(void *st, Node *n) { ((Seen *)st)->n[n]++; }
struct Stats { int height; size_t count; };
Stats walk(Root *r, Node *n, bool hasLo, int64_t lo, bool hasHi, int64_t hi, int depth) {
	if (n == &r->empty) return { 0, 0 };
	CHECK(depth < 200, "the tree's links form a cycle or a degenerate chain");
	CHECK((!hasLo || n->key > lo) && (!hasHi || n->key < hi), "key %" PRId64 " is on the wrong side of an ancestor", n->key);
	Stats a = walk(r, n->left, hasLo, lo, true, n->key, depth + 1), b = walk(r, n->right, true, n->key, hasHi, hi, depth + 1);
	return { 1 + std::max(a.height, b.height), 1 + a.count + b.count };
}
void history(Src &s) {
	Root *root = (Root *)malloc(sizeof(Root));
	memset(root, 0xA5, sizeof(Root));
	fiftyoneDegreesTreeRootInit(root);
	size_t nodes = (size_t)s.range(1, s.chance(1, 4) ? 120 : 30);
	int large = s.chance(1, 300) ? 1 : s.chance(1, 1500) ? 2 : 0; if (large) { label(large == 1 ? "hundreds of nodes" : "tens of thousands of nodes"); nodes = (size_t)(large == 1 ? s.range(250, 1200) : s.range(65600, 70000)); }
	std::vector<Node *> pool;
	for (size_t i = 0; i < nodes; i++) {
		Node *n = (Node *)malloc(sizeof(Node)); memset(n, 0x5A, sizeof(Node));
		fiftyoneDegreesTreeNodeInit(n, root);
		pool.push_back(n);
	}
	std::vector<Node *> freeNodes = pool;
	std::map<int64_t, Node *> model;
	int style = (int)s.below(4);
	int64_t next = style == 1 ? -(int64_t)s.below(100) : 0;
	auto key = [&]() -> int64_t {
		switch (style) {
		case 0: return s.range(-20, 60);
		case 4: return (int64_t)(mix(next++) >> 44) - (1 << 19);
		case 1: return next += s.range(1, 3);
		case 2: return next -= s.range(1, 3);
		default: { static const int64_t e[] = { INT64_MIN, INT64_MAX, 0, -1, 1, INT32_MIN, INT32_MAX, 1LL << 32 };
			return s.chance(1, 3) ? s.pick(e) : (int64_t)s.below(0); }
		}
	};
	size_t steps = (size_t)s.range(1, s.chance(1, 4) ? 500 : 120), deletes = 0, reinserts = 0, two = 0;
	int fill = (int)s.range(2, 8); uint64_t seed = 0, every = 1;
	if (large) { steps = nodes + (size_t)s.below(nodes / 2); fill = 10; seed = s.below(1ull << 32); every = large == 1 ? 40 : steps / 4; if (style == 0) { style = 4; next = (int64_t)seed; } }
	for (size_t i = 0; i < steps; i++) {
		bool ins = !freeNodes.empty() && (model.empty() || (large ? mix(seed + i) % 40 != 0 : (int)s.below(10) < fill));
		if (ins) {
			int64_t k = key();
			if (model.count(k)) continue;
			size_t j = large ? freeNodes.size() - 1 : s.below(freeNodes.size());
			Node *n = freeNodes[j]; freeNodes.erase(freeNodes.begin() + (long)j);
			n->key = k;
			fiftyoneDegreesTreeInsert(n);
			if (steps < 60) log("insert %" PRId64, k);
			model[k] = n; reinserts += deletes > 0;
		} else if (!model.empty()) {
			auto it = model.begin();
			switch (s.below(4)) {
			case 0: break;
			case 1: it = std::prev(model.end()); break;
			default: if (large == 2) { int64_t k = (int64_t)s.below(0); it = model.lower_bound(k); if (it == model.end()) it = model.begin(); } else std::advance(it, (long)s.below(model.size()));
			}
			Node *n = it->second;
			if (steps < 60) log("delete %" PRId64, it->first);
			if (n->left != &root->empty && n->right != &root->empty) two++;
			fiftyoneDegreesTreeDelete(n);
			if (s.chance(1, 2)) fiftyoneDegreesTreeNodeRemove(n);
			model.erase(it); freeNodes.push_back(n); deletes++;
		}
		if (!large && s.chance(1, 150)) {
			fiftyoneDegreesTreeRootInit(root);
			for (auto &m : model) freeNodes.push_back(m.second);
			model.clear(); log("clear");
		}
		if (i % every != 0 && i + 1 != steps) continue;
		// lookups
		for (auto &m : model) {
			Node *f = fiftyoneDegreesTreeFind(root, m.first);
			CHECK(f == m.second, "key %" PRId64 " is in the tree but %s", m.first, f ? "another node was found" : "was not found");
		}
		for (int q = 0; q < 3; q++) {
			int64_t k = style == 0 ? s.range(-22, 62) : (int64_t)s.below(0);
			if (!model.count(k)) CHECK(fiftyoneDegreesTreeFind(root, k) == nullptr, "key %" PRId64 " is not in the tree but was found", k);
		}
		Stats st = walk(root, root->root.left, false, 0, false, 0, 0);
		CHECK(st.count == model.size(), "%zu nodes reachable, %zu inserted and not deleted", st.count, model.size());
		CHECK(model.empty() || st.height <= 2 * log2((double)model.size()) + 2, "height %d with %zu keys", st.height, model.size());
		CHECK(fiftyoneDegreesTreeCount(root) == model.size(), "count says %u, there are %zu", fiftyoneDegreesTreeCount(root), model.size());
		if (large || i % 8 == 0 || i + 1 == steps) {
			Seen seen; fiftyoneDegreesTreeIterateNodes(root, &seen, collect);
			CHECK(seen.n.size() == model.size(), "iteration visited %zu nodes of %zu", seen.n.size(), model.size());
			for (auto &m : model) CHECK(seen.n[m.second] == 1, "key %" PRId64 " visited %d times", m.first, seen.n[m.second]);
		}
	}
	if (deletes >= 3 && reinserts > 0 && two > 0) nontrivial();
	if (two) label("deleted nodes with two children");
	if (style == 3) label("extreme keys");
	if (style == 1 || style == 2) label("monotonic keys");
	for (auto n : pool) free(n);
	free(root);
}
}
int main(int argc, char **argv) {
	suite("history", history, 60000, 2000000,
		"random inserts, deletes, clears and lookups over up to 120 nodes, full comparison after each step; non-trivial = 3 or more deletions, one of a node with two children, and an insertion after a deletion");
	Options o; o.assumptions = { "single thread; keys are distinct as the header requires" };
	return runMain(argc, argv, o);
}
