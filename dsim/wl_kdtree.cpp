/* Histories of operations on k-d trees. */
#include "dsim.h"
#include <functional>
#include <memory>
#include <new>
#include <stdexcept>
#include <thread>
#include <vector>
#include <pyclustering/container/kdtree.hpp>
#include <pyclustering/container/kdtree_searcher.hpp>

using namespace pyclustering;
using namespace pyclustering::container;

struct KdOp { i64 what, tree, id, count, at, len, threads; double radius; };
/* what: 0 build from ids [id, id+count), 1 insert, 2 remove point, 3 remove point with payload, 4 remove node, 5 find point, 6 find with payload, 7 neighbours in the radius, 8 nearest, 9 neighbours given to a function,
   10 searcher used twice (nearest, then neighbours), 11 the next `count` operations are made by `threads` threads at once, 12 move the tree, 13 take everything out, from now on the tree gets only the first `count` coordinates of points */

namespace {

struct Out {            /* results: per operation: status, amount of pairs, pairs (payload, distance) */
    double *p; i64 cap, n = 0;
    void put(double v) { if (n < cap) p[n] = v; n++; }
};

struct Result { int status = 0; std::vector<std::pair<double, double>> items; };

typedef std::pair<double, double> Pair;

double label(const kdnode::ptr &n) { return n ? (double) (std::uintptr_t) n->get_payload() : 0.0; }

void search(const KdOp &o, const kdtree &t, const dataset &points, Result &r) {
    if (!t.get_root() && o.what >= 7) return;       /* searchers need a node */
    const point &p = points[(std::size_t) o.id];
    switch (o.what) {
    case 5: { kdnode::ptr n = t.find_node(p); Quiet q; r.items.push_back(Pair(label(n), 0)); break; }
    case 6: { kdnode::ptr n = t.find_node(p, (const void *) (std::uintptr_t) (o.id + 1)); Quiet q; r.items.push_back(Pair(label(n), 0)); break; }
    case 7: {
        std::vector<double> d; std::vector<kdnode::ptr> n; kdtree_searcher(p, t.get_root(), o.radius).find_nearest_nodes(d, n);
        Quiet q; if (d.size() != n.size()) r.status = 4; else for (std::size_t i = 0; i < d.size(); ++i) r.items.push_back(Pair(label(n[i]), d[i]));
        break; }
    case 8: { kdnode::ptr n = kdtree_searcher(p, t.get_root(), o.radius).find_nearest_node(); Quiet q; r.items.push_back(Pair(label(n), 0)); break; }
    case 9: {
        kdtree_searcher s(p, t.get_root(), o.radius);
        s.find_nearest([&r](const kdnode::ptr &n, const double d) { Quiet q; r.items.push_back(Pair(label(n), d)); });
        break; }
    case 10: {
        kdtree_searcher s(p, t.get_root(), o.radius);
        try { s.find_nearest_node(); } catch (const std::bad_alloc &) { }
        std::vector<double> d; std::vector<kdnode::ptr> n;
        try { s.find_nearest_nodes(d, n); } catch (const std::bad_alloc &) { d.clear(); n.clear(); sim_alloc_arm(0, 0); s.find_nearest_nodes(d, n); }
        Quiet q; if (d.size() != n.size()) r.status = 4; else for (std::size_t i = 0; i < d.size(); ++i) r.items.push_back(Pair(label(n[i]), d[i]));
        break; }
    default: sim_fail("workload", "unknown search");
    }
}

bool changes(i64 what) { return what <= 4 || what >= 12; }

void change(const KdOp &o, kdtree &t, const dataset &points, const dataset &part, const std::vector<void *> &payloads, Result &r) {
    const point &p = points[(std::size_t) o.id];
    void *const payload = (void *) (std::uintptr_t) (o.id + 1);
    switch (o.what) {
    case 0: t = kdtree(part, payloads); break;
    case 1: { kdnode::ptr n = t.insert(p, payload); if (!n || n->get_payload() != payload || n->get_data() != p) r.status = 4; break; }
    case 2: t.remove(p); break;
    case 3: t.remove(p, payload); break;
    case 4: { kdnode::ptr n = t.find_node(p, payload); if (n) t.remove(n); break; }
    case 13: while (kdnode::ptr n = t.get_root()) { t.remove(n); if (t.get_root() == n) { r.status = 3; break; } } break;
    case 12: { kdtree other(std::move(t)); t = kdtree(); t = std::move(other); break; }
    default: sim_fail("workload", "unknown operation");
    }
}

void guarded(const KdOp &o, kdtree &t, const dataset &points, Result &r) {
    dataset *part = nullptr; std::vector<void *> *payloads = nullptr;
    { Quiet q; part = new dataset(); payloads = new std::vector<void *>(); }
    if (o.what == 0) {
        Quiet q;
        for (i64 k = 0; k < o.count; ++k) { part->push_back(points[(std::size_t) (o.id + k)]); payloads->push_back((void *) (std::uintptr_t) (o.id + 1 + k)); }
    }
    if (o.at) sim_alloc_arm((u64) o.at, (u64) o.len);
    try { if (changes(o.what)) change(o, t, points, *part, *payloads, r); else search(o, t, points, r); }
    catch (const std::bad_alloc &) { r.status = 1; }
    catch (const std::exception &) { r.status = 2; }
    if (o.at) sim_alloc_arm(0, 0);
    Quiet q; delete part; delete payloads;
}

void put(Out &out, const Result &r) {
    out.put(r.status); out.put((double) r.items.size());
    for (auto &i : r.items) { out.put(i.first); out.put(i.second); }
}

/* what is in the tree */
void dump(const kdtree &t, const dataset &points, Result &r, double &size) {
    Quiet q;
    size = (double) t.get_size();
    std::vector<kdnode::ptr> todo; if (t.get_root()) todo.push_back(t.get_root());
    while (!todo.empty()) {
        kdnode::ptr n = todo.back(); todo.pop_back();
        const std::size_t id = (std::size_t) (std::uintptr_t) n->get_payload();
        r.items.push_back(Pair((double) id, id < 1 || id > points.size() || n->get_data() != points[id - 1]));
        if (r.items.size() > 100000) { r.status = 3; return; }
        if (n->get_left()) todo.push_back(n->get_left());
        if (n->get_right()) todo.push_back(n->get_right());
    }
}

}

/* After every operation that changes a tree, and for all trees after a group, the content of the tree follows: status, pairs (payload, wrong coordinates), size. */
WL i64 wl_kdtree(i64 npoints, i64 dim, const double *values, i64 ntrees, i64 nops, const KdOp *ops, double *buffer, i64 cap) {
    std::vector<dataset> *widths; std::vector<dataset *> *now; std::vector<kdtree> *trees; Out out{ buffer, cap };
    { Quiet q; 
        widths = new std::vector<dataset>((std::size_t) dim + 1);
        for (i64 w = 1; w <= dim; ++w)
            for (i64 i = 0; i < npoints; ++i) (*widths)[(std::size_t) w].emplace_back(values + i * dim, values + i * dim + w);
        trees = new std::vector<kdtree>((std::size_t) ntrees);
        now = new std::vector<dataset *>((std::size_t) ntrees, &widths->back());
    }
    const u64 live = sim_live_allocs();
    auto content = [&](const std::size_t index) {
        const kdtree &t = (*trees)[index];
        Quiet q; Result c; double size = 0;
        dump(t, *(*now)[index], c, size);
        put(out, c); out.put(size);
    };
    for (i64 i = 0; i < nops; ++i) {
        const KdOp &o = ops[i];
        if (o.what == 11) {         /* id: 0 searches shared out, 1 every thread works on trees of its own */
            std::vector<Result> *res; { Quiet q; res = new std::vector<Result>((std::size_t) o.count); }
            {
                std::vector<std::thread> ts;
                for (i64 k = 0; k < o.threads; ++k)
                    ts.emplace_back([&, k]() {
                        for (i64 j = 0; j < o.count; ++j) { const KdOp &p = ops[i + 1 + j]; if ((o.id ? p.tree : j) % o.threads == k) guarded(p, (*trees)[(std::size_t) p.tree], *(*now)[(std::size_t) p.tree], (*res)[(std::size_t) j]); }
                    });
                for (auto &x : ts) x.join();
            }
            { Quiet q; for (auto &r : *res) put(out, r); delete res; }
            for (std::size_t t = 0; t < trees->size(); ++t) content(t);
            i += o.count;
            continue;
        }
        kdtree &t = (*trees)[(std::size_t) o.tree];
        Result *r; { Quiet q; r = new Result(); }
        guarded(o, t, *(*now)[(std::size_t) o.tree], *r);
        if (o.what == 13) (*now)[(std::size_t) o.tree] = &(*widths)[(std::size_t) o.count];
        { Quiet q; put(out, *r); delete r; }
        if (changes(o.what)) content((std::size_t) o.tree);
    }
    for (auto &t : *trees) t = kdtree();
    const i64 leaked = (i64) (sim_live_allocs() - live);
    { Quiet q; delete trees; delete now; delete widths; }
    out.put((double) leaked);
    return out.n;
}
