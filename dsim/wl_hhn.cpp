/* Storing and reading back the dynamics of the Hodgkin-Huxley network. */
#include "dsim.h"
#include <fstream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <vector>
#include <pyclustering/nnet/hhn.hpp>

using namespace pyclustering;
using namespace pyclustering::nnet;

extern "C" void hhn_dynamic_write(const void *, const char *);
extern "C" void *hhn_dynamic_read(const char *);
extern "C" void *hhn_dynamic_create(const bool, const bool, const bool, const bool);
extern "C" void hhn_dynamic_destroy(const void *);

struct HhnJob { i64 neurons, rows, mask, simulate, solver, interface_, extra_disable; double time; };

static const hhn_dynamic::collect TYPES[4] = { hhn_dynamic::collect::MEMBRANE_POTENTIAL, hhn_dynamic::collect::ACTIVE_COND_SODIUM,
                                               hhn_dynamic::collect::INACTIVE_COND_SODIUM, hhn_dynamic::collect::ACTIVE_COND_POTASSIUM };

/* out: rows, neurons, mask, then per row: time and per neuron (peripheral, then central) the collected values; returns the amount of doubles (or -1: does not fit, -2: inconsistent) */
static i64 dump(hhn_dynamic &d, double *out, i64 cap) {
    Quiet q;
    std::set<hhn_dynamic::collect> enabled;
    d.get_enabled(enabled);
    i64 n = 0, mask = 0;
    for (int t = 0; t < 4; ++t) if (enabled.count(TYPES[t])) mask |= 1 << t;
    const std::size_t rows = d.size_dynamic(), neurons = d.size_network();
    if ((i64) (3 + rows * (1 + 4 * (neurons + 2))) > cap) return -1;
    out[n++] = (double) rows; out[n++] = (double) neurons; out[n++] = (double) mask;
    if (d.get_time()->size() != rows) return -2;
    for (int t = 0; t < 4; ++t) {
        const auto &p = d.get_peripheral_dynamic(TYPES[t]), &c = d.get_central_dynamic(TYPES[t]);
        const std::size_t want = (mask >> t & 1) ? rows : 0;
        if (want && (p.size() != rows || c.size() != rows)) return -2;
        for (std::size_t r = 0; r < want; ++r) if (p[r].size() != neurons || c[r].size() != 2) return -2;
    }
    for (std::size_t r = 0; r < rows; ++r) {
        out[n++] = d.get_time()->at(r);
        for (std::size_t k = 0; k < neurons + 2; ++k)
            for (int t = 0; t < 4; ++t)
                if (mask >> t & 1) out[n++] = k < neurons ? d.get_peripheral_value(r, k, TYPES[t]) : d.get_central_value(r, k - neurons, TYPES[t]);
    }
    return n;
}

/* status: 0 written, 1 the stream reports a failure */
WL i64 wl_hhn_write(const HhnJob *job, const double *values, const char *path, double *out, i64 cap, i64 *status) {
    const std::size_t n = (std::size_t) job->neurons;
    std::unique_ptr<hhn_dynamic> own(new hhn_dynamic());
    hhn_dynamic &d = *own;
    d.disable_all();
    std::vector<hhn_dynamic::collect> on;
    for (int t = 0; t < 4; ++t) if (job->mask >> t & 1) on.push_back(TYPES[t]);
    d.enable(on);
    if (job->simulate) {
        hnn_parameters parameters;
        hhn_network network(n, parameters);
        hhn_stimulus stimulus(values, values + n);
        network.simulate((std::size_t) job->rows, job->time, job->solver ? solve_type::RUNGE_KUTTA_4 : solve_type::RUNGE_KUTTA_FEHLBERG_45, stimulus, d);
    }
    else {
        for (i64 r = 0; r < job->rows; ++r) {
            std::vector<hhn_oscillator> peripheral(n);
            std::vector<central_element> central(2);
            const double time = *values++;
            for (std::size_t k = 0; k < n + 2; ++k) {
                basic_neuron_state &s = k < n ? (basic_neuron_state &) peripheral[k] : (basic_neuron_state &) central[k - n];
                s.m_membrane_potential = *values++; s.m_active_cond_sodium = *values++; s.m_inactive_cond_sodium = *values++; s.m_active_cond_potassium = *values++;
            }
            d.store(time, peripheral, central);
        }
    }
    for (int t = 0; t < 4; ++t) if (job->extra_disable >> t & 1) d.disable(TYPES[t]);
    const i64 count = dump(d, out, cap);
    *status = 0;
    if (job->interface_) hhn_dynamic_write(&d, path);
    else {
        std::ofstream s(path);
        s << d;
        s.close();
        *status = s ? 0 : 1;
    }
    return count;
}

struct HhnRead { i64 interface_, again; };      /* again: 1 the same reader a second time, 2 another reader a second time */
struct HhnResult { i64 status, count, status2, count2, leaked; };

static i64 read_one(hhn_dynamic_reader *reader, i64 interface_, const char *path, i64 &count, double *out, i64 cap) {
    try {
        if (interface_) {
            void *p = hhn_dynamic_read(path);
            if (!p) return 1;
            count = dump(*(hhn_dynamic *) p, out, cap);
            hhn_dynamic_destroy(p);
        }
        else {
            hhn_dynamic d;
            reader->read(d);
            count = dump(d, out, cap);
        }
    }
    catch (const std::exception &) { return 1; }
    return 0;
}

WL void wl_hhn_read(const HhnRead *job, const char *path, double *out, double *out2, i64 cap, HhnResult *r) {
    const u64 before = sim_live_allocs();
    r->count = r->count2 = 0; r->status2 = -1; r->status = 1;
    try {
        hhn_dynamic_reader reader(path), other(path);
        r->status = read_one(&reader, job->interface_, path, r->count, out, cap);
        if (job->again) r->status2 = read_one(job->again == 1 ? &reader : &other, job->interface_, path, r->count2, out2, cap);
    }
    catch (const std::exception &) { }
    r->leaked = (i64) (sim_live_allocs() - before);
}
