/* Native algorithms through their C++ classes, with resources refused at chosen points. */
#include "dsim.h"
#include <algorithm>
#include <cstring>
#include <functional>
#include <new>
#include <stdexcept>
#include <system_error>
#include <vector>
#include <pyclustering/cluster/agglomerative.hpp>
#include <pyclustering/cluster/bsas.hpp>
#include <pyclustering/cluster/clique.hpp>
#include <pyclustering/cluster/cure.hpp>
#include <pyclustering/cluster/dbscan.hpp>
#include <pyclustering/cluster/elbow.hpp>
#include <pyclustering/cluster/fcm.hpp>
#include <pyclustering/cluster/gmeans.hpp>
#include <pyclustering/cluster/hsyncnet.hpp>
#include <pyclustering/cluster/kmeans.hpp>
#include <pyclustering/cluster/kmeans_plus_plus.hpp>
#include <pyclustering/cluster/kmedians.hpp>
#include <pyclustering/cluster/kmedoids.hpp>
#include <pyclustering/cluster/mbsas.hpp>
#include <pyclustering/cluster/optics.hpp>
#include <pyclustering/cluster/pam_build.hpp>
#include <pyclustering/cluster/random_center_initializer.hpp>
#include <pyclustering/cluster/rock.hpp>
#include <pyclustering/cluster/silhouette.hpp>
#include <pyclustering/cluster/silhouette_ksearch.hpp>
#include <pyclustering/cluster/somsc.hpp>
#include <pyclustering/cluster/syncnet.hpp>
#include <pyclustering/cluster/ttsas.hpp>
#include <pyclustering/cluster/xmeans.hpp>
#include <pyclustering/container/kdtree.hpp>
#include <pyclustering/container/kdtree_searcher.hpp>
#include <pyclustering/nnet/hhn.hpp>
#include <pyclustering/nnet/legion.hpp>
#include <pyclustering/nnet/pcnn.hpp>
#include <pyclustering/nnet/som.hpp>
#include <pyclustering/nnet/sync.hpp>
#include <pyclustering/nnet/syncpr.hpp>
#include <pyclustering/parallel/thread_pool.hpp>

using namespace pyclustering;
using namespace pyclustering::clst;
using namespace pyclustering::nnet;
using namespace pyclustering::container;
using namespace pyclustering::differential;
using namespace pyclustering::utils::metric;

struct ExJob {
    i64 alg, n, dim, k, variant, repeat, metric, seed;
    double x, y;
};
struct ExFault { i64 what, at, len, object, other; }; /* what: 0 memory, 1 threads; at: in millionths of what the call needs; len: how many requests fail; object: one object is asked before, during and after the fault; other: ... afterwards with other data */
struct ExOut {
    i64 status;         /* 0 returned, 1 bad_alloc, 2 system_error, 3 other exception, 4 returned something malformed, 5 not an exception, 100+: the object cannot be used twice */
    i64 faults;         /* requests refused */
    i64 same;           /* result equal to the one without faults (when it returned) */
    i64 threads;        /* threads alive when the call ended */
    i64 leaked;         /* heap blocks still held afterwards */
    i64 changed;        /* input changed */
    i64 retry;          /* 0 the repeated call gives the normal result, 1 another one, 2 exception */
    i64 retry_leaked;
    i64 where, need, other;    /* request that was refused, of how many */
};
struct ExInfo { i64 allocs, threads, leaked, status, unstable; };

namespace {

const i64 SILHOUETTE = 7, GENERATOR = 29;      /* draws from a generator that belongs to the object: results of one object differ, but each is a proper one */

struct Hash {
    bool bad = false;
    u64 h = 1469598103934665603ull;
    void raw(u64 v) { h = (h ^ v) * 1099511628211ull; h ^= h >> 29; }
    void put(double v) { u64 u; if (v == 0) v = 0; std::memcpy(&u, &v, 8); raw(v != v ? 0x7ff8ull : u); }
    void put(std::size_t v) { raw(v); }
    void put(bool v) { raw(v); }
    void put(int v) { raw((u64) v); }
    template <class T> void put(const std::vector<T> &v) { raw(v.size()); for (const auto &x : v) put(x); }
    template <class T> void put(const std::list<T> &v) { raw(v.size()); for (const auto &x : v) put(x); }
};

distance_metric<point> make_metric(const ExJob &j) {
    switch (j.metric) {
    case 1: return distance_metric_factory<point>::euclidean();
    case 2: return distance_metric_factory<point>::manhattan();
    case 3: return distance_metric_factory<point>::chebyshev();
    case 4: return distance_metric_factory<point>::minkowski(4.0);
    case 5: return distance_metric_factory<point>::gower(point((std::size_t) j.dim, 2.5));
    case 6: return distance_metric_factory<point>::user_defined([](const point &a, const point &b) { double s = 0; for (std::size_t i = 0; i < a.size(); ++i) s += std::abs(a[i] - b[i]); return s; });
    default: return distance_metric_factory<point>::euclidean_square();
    }
}

dataset head(const dataset &d, i64 k) { return dataset(d.begin(), d.begin() + (std::ptrdiff_t) std::min<i64>(k, (i64) d.size())); }

dataset square_matrix(const dataset &d) {
    dataset m(d.size());
    for (std::size_t i = 0; i < d.size(); ++i) { m[i].resize(d.size()); for (std::size_t j = 0; j < d.size(); ++j) m[i][j] = euclidean_distance(d[i], d[j]); }
    return m;
}

/* One call; everything the library allocates happens in here.  The algorithms that are used by 'process' or 'initialize' give the object and the call separately,
   so that one object can be asked again. */
typedef std::function<void (Hash &)> Ask;

Ask build(const ExJob &j, dataset &d, const dataset &matrix) {
    const std::size_t k = (std::size_t) j.k;
    switch (j.alg) {
    case 0: { auto o = std::make_shared<kmeans>(head(d, j.k), 0.001, 20, make_metric(j)); const bool e = j.variant & 1;
              return [&d, o, e](Hash &h) { kmeans_data r(e); o->process(d, r); h.put(r.clusters()); h.put(r.centers()); h.put(r.wce()); h.put(r.evolution_centers()); }; }
    case 1: { auto o = std::make_shared<kmedians>(head(d, j.k), 0.001, 20, make_metric(j)); return [&d, o](Hash &h) { kmedians_data r; o->process(d, r); h.put(r.clusters()); h.put(r.medians()); }; }
    case 2: {
        medoid_sequence m; for (std::size_t i = 0; i < k; ++i) m.push_back(i);
        auto o = std::make_shared<kmedoids>(m, 0.001, 20, make_metric(j)); const bool e = j.variant & 1;
        return [&d, &matrix, o, e](Hash &h) { kmedoids_data r; if (e) o->process(matrix, data_t::DISTANCE_MATRIX, r); else o->process(d, r); h.put(r.clusters()); h.put(r.medoids()); }; }
    case 3: { auto o = std::make_shared<fcm>(head(d, j.k), 2.0, 0.001, 10); return [&d, o](Hash &h) { fcm_data r; o->process(d, r); h.put(r.clusters()); h.put(r.centers()); h.put(r.membership()); }; }
    case 4: { auto o = std::make_shared<xmeans>(head(d, j.k), 8, 0.01, j.variant & 1 ? splitting_type::BAYESIAN_INFORMATION_CRITERION : splitting_type::MINIMUM_NOISELESS_DESCRIPTION_LENGTH, (std::size_t) j.repeat, j.seed, make_metric(j));
              return [&d, o](Hash &h) { xmeans_data r; o->process(d, r); h.put(r.clusters()); h.put(r.centers()); }; }
    case 5: { auto o = std::make_shared<gmeans>(k, 0.01, (std::size_t) j.repeat, 6, j.seed); return [&d, o](Hash &h) { gmeans_data r; o->process(d, r); h.put(r.clusters()); h.put(r.centers()); }; }
    case 6: { const std::size_t top = std::min<std::size_t>(d.size(), 5);
              if (j.variant & 1) { auto o = std::make_shared<elbow<random_center_initializer>>(1, top, 1, j.seed); return [&d, o](Hash &h) { elbow_data r; o->process(d, r); h.put(r.get_wce()); h.put(r.get_amount()); }; }
              auto o = std::make_shared<elbow<kmeans_plus_plus>>(1, top, 1, j.seed); return [&d, o](Hash &h) { elbow_data r; o->process(d, r); h.put(r.get_wce()); h.put(r.get_amount()); }; }
    case 7: { auto c = std::make_shared<cluster_sequence>(k); for (std::size_t i = 0; i < d.size(); ++i) (*c)[i % k].push_back(i);    /* g++ 10 leaks captures when the copy of a later one throws */
              auto o = std::make_shared<silhouette>(make_metric(j)); const bool e = j.variant & 1;
              return [&d, &matrix, o, c, e](Hash &h) { silhouette_data r; o->process(e ? matrix : d, *c, e ? data_t::DISTANCE_MATRIX : data_t::POINTS, r); h.put(r.get_score()); }; }
    case 8: {
        std::shared_ptr<silhouette_ksearch_allocator> a;
        if (j.variant == 0) a = std::make_shared<kmeans_allocator>(); else if (j.variant == 1) a = std::make_shared<kmedians_allocator>(); else a = std::make_shared<kmedoids_allocator>();
        auto o = std::make_shared<silhouette_ksearch>(2, std::min<std::size_t>(d.size(), 4), a, j.seed); return [&d, o](Hash &h) { silhouette_ksearch_data r; o->process(d, r); h.put(r.scores()); h.put(r.get_amount()); }; }
    case 9: { auto o = std::make_shared<agglomerative>(k, (agglomerative::type_link) (j.variant & 3)); return [&d, o](Hash &h) { agglomerative_data r; o->process(d, r); h.put(r.clusters()); }; }
    case 10: { auto o = std::make_shared<bsas>(k, j.x, make_metric(j)); return [&d, o](Hash &h) { bsas_data r; o->process(d, r); h.put(r.clusters()); h.put(r.representatives()); }; }
    case 11: { auto o = std::make_shared<mbsas>(k, j.x, make_metric(j)); return [&d, o](Hash &h) { mbsas_data r; o->process(d, r); h.put(r.clusters()); h.put(r.representatives()); }; }
    case 12: { auto o = std::make_shared<ttsas>(j.x, j.x + j.y, make_metric(j)); return [&d, o](Hash &h) { ttsas_data r; o->process(d, r); h.put(r.clusters()); h.put(r.representatives()); }; }
    case 13: { auto o = std::make_shared<clique>(3, 1); return [&d, o](Hash &h) { clique_data r; o->process(d, r); h.put(r.clusters()); h.put(r.noise()); h.put(r.blocks().size()); }; }
    case 14: { auto o = std::make_shared<cure>(k, 3, 0.5); return [&d, o](Hash &h) { cure_data r; o->process(d, r); h.put(r.clusters()); h.put(r.means()); h.put(r.representors()); }; }
    case 15: { auto o = std::make_shared<dbscan>(j.x, k); const bool e = j.variant & 1;
               return [&d, &matrix, o, e](Hash &h) { dbscan_data r; if (e) o->process(matrix, data_t::DISTANCE_MATRIX, r); else o->process(d, r); h.put(r.clusters()); h.put(r.noise()); }; }
    case 16: {
        auto o = j.variant & 2 ? std::make_shared<optics>(30.0, 2, k) : std::make_shared<optics>(j.x, k); const bool e = j.variant & 1;
        return [&d, &matrix, o, e](Hash &h) { optics_data r; if (e) o->process(matrix, data_t::DISTANCE_MATRIX, r); else o->process(d, r); h.put(r.clusters()); h.put(r.noise()); h.put(r.cluster_ordering()); h.put(r.get_radius()); }; }
    case 17: { auto o = std::make_shared<pam_build>(k, make_metric(j)); const bool e = j.variant & 1; return [&d, &matrix, o, e](Hash &h) { medoid_sequence m; if (e) o->initialize(matrix, data_t::DISTANCE_MATRIX, m); else o->initialize(d, m); h.put(m); }; }
    case 18: { auto o = std::make_shared<rock>(j.x, k, 0.5); return [&d, o](Hash &h) { rock_data r; o->process(d, r); h.put(r.clusters()); }; }
    case 19: { auto o = std::make_shared<somsc>(k, 3); return [&d, o](Hash &h) { somsc_data r; o->process(d, r); h.put(r.clusters().size()); }; }
    case 29: { auto a = std::make_shared<kmeans_plus_plus>(k, (std::size_t) j.repeat, kmeans_plus_plus::metric(make_metric(j)), j.seed); auto b = std::make_shared<random_center_initializer>(k, j.seed);
               return [&d, a, b, k](Hash &h) {
                   dataset c; index_sequence idx;
                   const auto check = [&]() { h.put(c); h.bad |= c.size() != k; for (const auto &p : c) h.bad |= std::find(d.begin(), d.end(), p) == d.end(); };
                   a->initialize(d, c); check(); a->initialize(d, idx); h.put(idx);
                   std::vector<bool> used(d.size(), false); h.bad |= idx.size() != k;
                   for (std::size_t i : idx) { if (i >= d.size() || used[i]) h.bad = true; else used[i] = true; }
                   b->initialize(d, c); check(); b->initialize(d, c); check(); }; }
    default: return Ask();
    }
}

void call(const ExJob &j, dataset &d, const dataset &matrix, Hash &h) {
    const std::size_t k = (std::size_t) j.k;
    Ask ask = build(j, d, matrix);
    if (ask) { ask(h); return; }
    switch (j.alg) {
    case 20: { syncnet s(&d, j.x, j.variant & 1, initial_type::EQUIPARTITION); syncnet_analyser a; s.process(0.9, solve_type::FORWARD_EULER, j.variant & 2, a); ensemble_data<sync_ensemble> e; a.allocate_sync_ensembles(0.1, e); h.put(e.size()); break; }
    case 21: { hsyncnet s(&d, std::min(k, d.size() - 1), initial_type::EQUIPARTITION, 2, 0.5); hsyncnet_analyser a; s.process(0.998, solve_type::FORWARD_EULER, j.variant & 1, a); h.put(a.size()); break; }
    case 22: {
        som_parameters p; p.init_type = (som_init_type) (j.variant & 3); p.random_state = j.seed; p.init_radius = 1.0;
        som s(2, k, (som_conn_type) ((j.variant >> 2) & 3), p); h.put(s.train(d, 4, j.variant & 16)); h.put(s.get_weights()); h.put(s.get_awards()); h.put(s.get_capture_objects()); h.put(s.simulate(d[0])); h.put(s.get_winner_number());
        som t(s); som u(2, k, (som_conn_type) ((j.variant >> 2) & 3), p); u.load(s.get_weights(), s.get_awards(), s.get_capture_objects()); h.put(t.get_weights()); h.put(u.simulate(d[0])); break; }
    case 23: {
        const std::size_t n = j.variant & 1 ? 64 : d.size();
        sync_network s(n, 1.0, 0.0, connection_t::CONNECTION_ALL_TO_ALL, initial_type::EQUIPARTITION); sync_dynamic y; s.simulate_static(j.variant & 1 ? 1 : 3, 0.3, j.variant & 2 ? solve_type::RUNGE_KUTTA_4 : solve_type::FORWARD_EULER, true, y);
        for (const auto &st : y) { h.put(st.m_phase); h.put(st.m_time); }
        ensemble_data<sync_ensemble> e; y.allocate_sync_ensembles(0.1, e); h.put(e.size()); sync_corr_matrix m; y.allocate_correlation_matrix(m); h.put(m); break; }
    case 24: {
        syncpr s((unsigned) d.size(), 0.5, 0.5); std::vector<syncpr_pattern> p(2, syncpr_pattern(d.size(), 1)); p[1][0] = -1; s.train(p);
        syncpr_dynamic y; s.simulate_static(2, 0.3, p[1], solve_type::FORWARD_EULER, true, y); for (const auto &st : y) h.put(st.m_phase); h.put(s.memory_order(p[0])); break; }
    case 25: {
        hnn_parameters p; hhn_network s(d.size(), p); hhn_stimulus st(d.size(), 20.0); hhn_dynamic y;
        if (j.variant & 1) { y.enable(hhn_dynamic::collect::ACTIVE_COND_SODIUM); }
        s.simulate((std::size_t) 4, 0.4, j.variant & 2 ? solve_type::RUNGE_KUTTA_FEHLBERG_45 : solve_type::RUNGE_KUTTA_4, st, y);
        h.put(y.size_dynamic()); h.put(*y.get_time());
        for (auto &row : y.get_peripheral_dynamic(hhn_dynamic::collect::MEMBRANE_POTENTIAL)) h.put(row); break; }
    case 26: {
        legion_parameters p; legion_network s(d.size(), j.variant & 2 ? connection_t::CONNECTION_LIST_BIDIRECTIONAL : connection_t::CONNECTION_ALL_TO_ALL, p); legion_stimulus st(d.size(), 1.0); legion_dynamic y;
        s.simulate(3, 1.0, solve_type::RUNGE_KUTTA_4, j.variant & 1, st, y); h.put(y.size()); break; }
    case 27: {
        pcnn_parameters p; p.FAST_LINKING = j.variant & 1; pcnn s(d.size(), connection_t::CONNECTION_ALL_TO_ALL, p); pcnn_stimulus st(d.size(), 1.0); pcnn_dynamic y; s.simulate(4, st, y);
        h.put(y.size()); pcnn_time_signal g; y.allocate_time_signal(g); for (auto v : g) h.raw((u64) v); ensemble_data<pcnn_ensemble> e; y.allocate_sync_ensembles(e); h.put(e.size()); break; }
    case 28: {
        kdtree t(head(d, (i64) d.size() / 2)); for (std::size_t i = d.size() / 2; i < d.size(); ++i) t.insert(d[i]);
        for (std::size_t i = 0; i < d.size() / 3; ++i) t.remove(d[i]);
        std::vector<double> dist; std::vector<kdnode::ptr> nodes; kdtree_searcher(d[0], t.get_root(), j.x).find_nearest_nodes(dist, nodes); h.put(dist); h.put(nodes.size()); break; }
    case 30: {
        int done[4] = { 0, 0, 0, 0 }; {
        parallel::thread_pool pool(2); std::vector<parallel::task::ptr> ts;
        try { for (int i = 0; i < 4; ++i) ts.push_back(pool.add_task([&done, i]() { done[i]++; })); }
        catch (...) { for (auto &t : ts) t->wait_ready(); throw; }
        for (auto &t : ts) t->wait_ready(); }
        for (int i : done) h.put(i); break; }
    default: sim_fail("workload", "unknown algorithm");
    }
}

int guarded(const std::function<void (Hash &)> &f, u64 &result, i64 &threads) {
    try { Hash h; f(h); threads = sim_live_threads(); result = h.h; return h.bad ? 4 : 0; }
    catch (const std::bad_alloc &) { threads = sim_live_threads(); return 1; }
    catch (const std::system_error &) { threads = sim_live_threads(); return 2; }
    catch (const std::exception &) { threads = sim_live_threads(); return 3; }
    catch (...) { threads = sim_live_threads(); return 5; }
}

}

WL void wl_exhaust(const ExJob *job, const double *values, i64 nfaults, const ExFault *faults, ExOut *outs, ExInfo *info) {
    dataset *d, *copy, *matrix; std::function<void (Hash &)> *fresh;
    { Quiet q; d = new dataset((std::size_t) job->n); for (auto &p : *d) { p.assign(values, values + job->dim); values += job->dim; } copy = new dataset(*d); matrix = new dataset(square_matrix(*d));
      fresh = new std::function<void (Hash &)>([job, d, matrix](Hash &h) { call(*job, *d, *matrix, h); }); }
    u64 normal = 0, other = 0; i64 th = 0;
    /* the first call may create things that live as long as the process (exception tables, facets) */
    guarded(*fresh, normal, th);
    u64 live = sim_live_allocs(), a0 = sim_alloc_count(), t0 = sim_thread_count();
    info->status = guarded(*fresh, normal, th);
    info->allocs = (i64) (sim_alloc_count() - a0); info->threads = (i64) (sim_thread_count() - t0); info->leaked = (i64) (sim_live_allocs() - live);
    guarded(*fresh, other, th); info->unstable = other != normal;
    for (i64 f = 0; f < nfaults && !info->status; ++f) {
        ExOut &o = outs[f];
        live = sim_live_allocs();
        {
        Ask control, object = faults[f].object ? build(*job, *d, *matrix) : Ask();
        const Ask &ask = object ? object : *fresh;
        u64 need = (u64) (faults[f].what ? info->threads : info->allocs);
        if (object) {       /* one object for everything: what does a call of it need? */
            a0 = sim_alloc_count(); t0 = sim_thread_count();
            i64 st = guarded(ask, other, th);
            need = faults[f].what ? sim_thread_count() - t0 : sim_alloc_count() - a0;
            if (st || (other != normal && job->alg != GENERATOR && !info->unstable)) { o.status = 100 + st; continue; }
        }
        o.where = need ? (i64) (1 + (need - 1) * (u64) faults[f].at / 1000000) : 0;
        o.need = (i64) need;
        const u64 before = sim_fault_count(), held = sim_live_allocs();
        if (need) { if (faults[f].what) sim_thread_arm((u64) o.where, (u64) faults[f].len); else sim_alloc_arm((u64) o.where, (u64) faults[f].len); }
        u64 result = 0;
        o.status = guarded(ask, result, o.threads);
        sim_alloc_arm(0, 0); sim_thread_arm(0, 0);
        o.faults = (i64) (sim_fault_count() - before);
        o.same = result == normal || (object && job->alg == GENERATOR);
        if (!object) o.leaked = (i64) (sim_live_allocs() - held);
        { Quiet q; o.changed = *d != *copy; if (o.changed) *d = *copy; }
        const u64 now = sim_live_allocs();
        u64 again = 0, wanted = normal;
        if (object && faults[f].other && job->alg != SILHOUETTE) {
            {   /* the object that has failed is used with other data: compared with an object that has not failed */
                Quiet q; const std::size_t m = std::max<std::size_t>((std::size_t) job->k, std::min<std::size_t>(d->size(), 5)); dataset e;
                for (std::size_t i = 0; i < m; ++i) { e.push_back((*copy)[copy->size() - 1 - i]); e.back()[0] += 0.25 * (double) i; }
                control = build(*job, *d, *matrix); *d = e; *matrix = square_matrix(e);
            }
            o.other = 1;
            if (guarded(control, wanted, th)) o.other = 2;
        }
        i64 st = guarded(ask, again, th);
        o.retry = o.other == 2 ? 0 : st ? 2 : again != wanted && !(object && job->alg == GENERATOR);
        if (!object) o.retry_leaked = (i64) (sim_live_allocs() - now);
        }
        { Quiet q; if (o.other) { *d = *copy; *matrix = square_matrix(*d); } }
        if (faults[f].object) o.retry_leaked = (i64) (sim_live_allocs() - live);
    }
    { Quiet q; delete d; delete copy; delete matrix; delete fresh; }
}
