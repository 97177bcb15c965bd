// Drives the alternating-tree operations on random forests and records the forest after each one.
// Judged by AltTreeTrace.tla.
#include "ugbuild.h"
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"
using namespace pm;

struct Forest {
    Arena<AltTreeNode> arena;
    std::vector<GraphFillRegion> regs;   // region id = index
    std::vector<DetectorNode> locs;
    std::vector<AltTreeNode*> nodes;     // live nodes
    Rng& r;
    Forest(Rng& rr) : regs(2000), locs(4000), r(rr) {}
    int next_reg = 0;
    GraphFillRegion* fresh() { return &regs[next_reg++]; }
    int id(GraphFillRegion* x) { return x ? (int)(x - &regs[0]) : -1; }
    int lid(DetectorNode* x) { return x ? (int)(x - &locs[0]) : -1; }
    CompressedEdge edge() {
        return CompressedEdge{&locs[r.below(4000)], &locs[r.below(4000)], (obs_int)r.below(8)};
    }
    AltTreeNode* add_root() {
        auto* n = arena.alloc_default_constructed();
        n->outer_region = fresh();
        n->outer_region->alt_tree_node = n;
        n->inner_to_outer_edge.clear();
        nodes.push_back(n);
        return n;
    }
    AltTreeNode* add_child_to(AltTreeNode* p) {
        auto* n = arena.alloc_default_constructed();
        n->inner_region = fresh();
        n->outer_region = fresh();
        n->inner_to_outer_edge = edge();
        n->inner_region->alt_tree_node = n;
        n->outer_region->alt_tree_node = n;
        nodes.push_back(n);
        p->add_child(AltTreeEdge(n, edge()));
        return n;
    }
    std::string ej(const CompressedEdge& e) {
        return "[" + std::to_string(lid(e.loc_from)) + "," + std::to_string(lid(e.loc_to)) + "," + J::num32((long long)e.obs_mask) + "]";
    }
    // [outer, inner, io, parent outer, pe, [[child outer, edge]...], flags]
    std::string dump() {
        std::vector<std::string> v;
        for (auto* n : nodes) {
            std::vector<std::string> ch;
            for (auto& c : n->children)
                ch.push_back("[" + std::to_string(c.alt_tree_node ? id(c.alt_tree_node->outer_region) : -1) + "," + ej(c.edge) + "]");
            int back = n->outer_region->alt_tree_node == n;
            v.push_back("[" + std::to_string(id(n->outer_region)) + "," + std::to_string(id(n->inner_region)) + "," +
                        ej(n->inner_to_outer_edge) + "," +
                        std::to_string(n->parent.alt_tree_node ? id(n->parent.alt_tree_node->outer_region) : -1) + "," +
                        ej(n->parent.edge) + "," + J::raw(ch) + "," + std::to_string(back) + "]");
        }
        return J::raw(v);
    }
    std::vector<int> visited() {
        std::vector<int> v;
        for (auto* n : nodes)
            if (n->visited)
                v.push_back(id(n->outer_region));
        return v;
    }
    void unvisit() {
        for (auto* n : nodes)
            n->visited = false;
    }
};

int main(int argc, char** argv) {
    Args A(argc, argv);
    FILE* out = fopen(A.s("--out", "/dev/stdout").c_str(), "w");
    uint64_t seed = A.i("--seed", 1);
    int max_n = (int)A.i("--n", 10), len = (int)A.i("--len", 8);
    struct Stat {
        long long histories, ops;
    };
    auto* st = shared_stat<Stat>();
    auto unit = [&](long long k) {
        Rng r(seed * 1000003ull + k);
        Forest f(r);
        int n = r.range((int)A.i("--min-n", 1), max_n), roots = r.range(1, 2);
        int depth = r.range(0, 3);
        for (int i = 0; i < n; i++) {
            if ((int)f.nodes.size() < roots)
                f.add_root();
            else {
                size_t j = depth == 0 ? r.below(f.nodes.size()) : depth == 1 ? f.nodes.size() - 1 - r.below(std::min<size_t>(2, f.nodes.size())) : depth == 2 ? r.below(std::min<size_t>(3, f.nodes.size())) : f.nodes.size() - 1;
                f.add_child_to(f.nodes[j]);
            }
        }
        fprintf(out, "%s\n", J().kv("kind", J::str("begin")).n("id", k).kv("f", f.dump()).done().c_str());
        for (int s = 0; s < len; s++) {
            int op = r.range(0, 3);
            J j;
            j.kv("kind", J::str("step"));
            st->ops++;
            auto* a = f.nodes[r.below(f.nodes.size())];
            if (op == 0) {
                note("root");
                int o = f.id(a->outer_region);
                a->become_root();
                // (re-rooting leaves the inner regions' own pointers to the caller)
                for (auto* x : f.nodes)
                    if (x->inner_region)
                        x->inner_region->alt_tree_node = x;
                j.kv("op", J::str("root")).n("a", o);
            } else if (op == 1 && f.nodes.size() > 1) {
                auto* b = f.nodes[r.below(f.nodes.size())];
                if (a == b)
                    continue;
                note("mrca");
                auto* m = a->most_recent_common_ancestor(*b);
                j.kv("op", J::str("mrca")).n("a", f.id(a->outer_region)).n("b", f.id(b->outer_region));
                j.n("m", m ? f.id(m->outer_region) : -1).kv("v", J::arr(f.visited()));
                f.unvisit();
            } else if (op == 2) {
                // prune up to an ancestor, hang the orphans on a node that remains
                std::vector<AltTreeNode*> anc;
                for (auto* x = a; x; x = x->parent.alt_tree_node)
                    anc.push_back(x);
                auto* p = anc[r.below(anc.size())];
                bool back = r.chance(1, 2);
                std::set<AltTreeNode*> gone;
                for (auto* x = a; x != p; x = x->parent.alt_tree_node)
                    gone.insert(x);
                note("prune");
                j.kv("op", J::str("prune")).n("a", f.id(a->outer_region)).n("b", f.id(p->outer_region)).n("back", back);
                std::vector<std::pair<int, int>> owners;
                auto res = a->prune_upward_path_stopping_before(f.arena, p, back);
                std::vector<AltTreeNode*> live;
                for (auto* x : f.nodes)
                    if (!gone.count(x))
                        live.push_back(x);
                f.nodes = live;
                std::vector<std::string> path, orph;
                for (auto& e : res.pruned_path_region_edges)
                    path.push_back("[" + std::to_string(f.id(e.region)) + "," + f.ej(e.edge) + "]");
                for (auto& e : res.orphan_edges) {
                    orph.push_back("[" + std::to_string(e.alt_tree_node ? f.id(e.alt_tree_node->inner_region) : -1) + "," + f.ej(e.edge) + "]");
                    if (e.alt_tree_node)
                        p->add_child(e);
                }
                j.kv("path", J::raw(path)).kv("orph", J::raw(orph));
                int freed = 0;
                for (auto& g : f.regs)
                    if (g.alt_tree_node && gone.count(g.alt_tree_node))
                        freed++;
                j.n("dangling", freed);
            } else {
                if (f.next_reg + 2 > 1990)
                    continue;
                note("add");
                auto* c = f.add_child_to(a);
                j.kv("op", J::str("add")).n("a", f.id(a->outer_region)).n("i", f.id(c->inner_region)).n("o", f.id(c->outer_region));
                j.kv("io", f.ej(c->inner_to_outer_edge)).kv("e", f.ej(a->children.back().edge));
            }
            // roots and listing
            auto* q = f.nodes[r.below(f.nodes.size())];
            auto* root = const_cast<AltTreeNode*>(q->find_root());
            std::vector<int> all;
            for (auto* x : root->all_nodes_in_tree())
                all.push_back(f.id(x->outer_region));
            j.n("q", f.id(q->outer_region)).n("qroot", f.id(root->outer_region)).kv("qall", J::arr(all));
            j.kv("f", f.dump());
            fprintf(out, "%s\n", j.done().c_str());
        }
        st->histories++;
    };
    auto crash = [&](long long k, const std::string& why) {
        fprintf(out, "%s\n", J().kv("kind", J::str("crash")).n("id", k).kv("why", J::str(why)).kv("at", J::str(progress()->note)).done().c_str());
    };
    run_units(A, "--histories", 100, out, unit, crash);
    fclose(out);
    fprintf(stderr, "STAT {\"histories\":%lld,\"ops\":%lld}\n", st->histories, st->ops);
    return 0;
}
