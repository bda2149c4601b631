/* Histories of uses of one native center initialiser object. */
#include "dsim.h"
#include <memory>
#include <stdexcept>
#include <vector>
#include <pyclustering/cluster/kmeans_plus_plus.hpp>
#include <pyclustering/cluster/random_center_initializer.hpp>

using namespace pyclustering;
using namespace pyclustering::clst;

struct InitJob {
    i64 kind;           /* 0 k-means++ (centers), 1 random */
    i64 amount, candidates, metric, seeded, seed, dim, uses;
};
/* use: method (0 centers, 1 indexes, 2 subset, 3 indexes through the second copy of the object), data set, size of the subset, offset of the subset */
struct InitUse { i64 method, set, length, offset, copy; };
struct InitOut { i64 status, count; };      /* 0 fine, 1 exception */

WL void wl_init(const InitJob *job, const double *values, const i64 *sizes, i64 nsets, const InitUse *uses, const i64 *indexes, InitOut *outs, double *centers, i64 *chosen) {
    std::vector<dataset> sets((std::size_t) nsets);
    for (i64 s = 0; s < nsets; ++s)
        for (i64 i = 0; i < sizes[s]; ++i) { sets[(std::size_t) s].emplace_back(values, values + job->dim); values += job->dim; }
    const long long state = job->seeded ? job->seed : RANDOM_STATE_CURRENT_TIME;
    const std::size_t cand = job->candidates < 0 ? kmeans_plus_plus::FARTHEST_CENTER_CANDIDATE : (std::size_t) job->candidates;
    std::unique_ptr<kmeans_plus_plus> pp;
    std::unique_ptr<random_center_initializer> rc;
    if (job->kind) rc.reset(new random_center_initializer((std::size_t) job->amount, state));
    else if (job->metric == 0) pp.reset(new kmeans_plus_plus((std::size_t) job->amount, cand, state));
    else {
        kmeans_plus_plus::metric m = job->metric == 1 ? kmeans_plus_plus::metric(distance_metric_factory<point>::manhattan())
                                                      : kmeans_plus_plus::metric(distance_metric_factory<point>::chebyshev());
        pp.reset(new kmeans_plus_plus((std::size_t) job->amount, cand, m, state));
    }
    for (i64 u = 0; u < job->uses; ++u) {
        const InitUse &use = uses[u];
        const dataset &data = sets[(std::size_t) use.set];
        if (use.copy) {
            if (pp) pp.reset(new kmeans_plus_plus(use.copy == 1 ? kmeans_plus_plus(*pp) : kmeans_plus_plus(std::move(*pp))));
            else rc.reset(new random_center_initializer(use.copy == 1 ? random_center_initializer(*rc) : random_center_initializer(std::move(*rc))));
        }
        InitOut &out = outs[u];
        out.status = 0; out.count = 0;
        dataset result; index_sequence idx;
        try {
            if (use.method == 1) pp->initialize(data, idx);
            else if (use.method == 2) {
                index_sequence subset;
                for (i64 i = 0; i < use.length; ++i) subset.push_back((std::size_t) indexes[use.offset + i]);
                if (pp) pp->initialize(data, subset, result); else rc->initialize(data, subset, result);
            }
            else if (pp) pp->initialize(data, result); else rc->initialize(data, result);
        }
        catch (const std::exception &) { out.status = 1; }
        Quiet q;
        if (use.method == 1) {
            out.count = (i64) idx.size();
            for (std::size_t i = 0; i < idx.size() && (i64) i < job->amount + 2; ++i) chosen[u * (job->amount + 2) + (i64) i] = (i64) idx[i];
        }
        else {
            out.count = (i64) result.size();
            for (std::size_t i = 0; i < result.size() && (i64) i < job->amount + 2; ++i)
                for (i64 d = 0; d < job->dim; ++d)
                    centers[(u * (job->amount + 2) + (i64) i) * job->dim + d] = d < (i64) result[i].size() ? result[i][(std::size_t) d] : -1e300;
        }
    }
}
