// D06: local maxima of the drift plane.
#include "cc.hpp"
#include <drift_search/protohit_search.hpp>
#include <drift_search/local_maxima.hpp>
#include <drift_search/hit_search_options.hpp>
#include <cmath>
struct Search { Shape sh; std::vector<float> x; float floor, power, threshold; int64_t T; int wide, d; };
static void maxima(const Search &q, bool direct) {
    int64_t D = q.sh[0], n = q.sh[1], N = D * n; auto cells = plain(q.sh); for (int64_t i = 0; i < N; ++i) cells.data_ptr<float>()[i] = q.x[i];
    auto plane = drift_plane(cells, q.T, q.wide); std::vector<double> row(D); std::vector<protohit_drift_info> info;
    for (int64_t i = 0; i < D; ++i) { row[i] = q.power / std::sqrt((double)q.T * (q.wide && i % 2 ? 4 : 1)); info.push_back({(float)row[i]}); }
    hit_search_options o; o.method = hit_search_methods::LOCAL_MAXIMA; o.snr_threshold = q.threshold; o.neighbor_l1_dist = q.d;
    auto hits = direct ? find_local_maxima_above_threshold(cells, plane.integrated_rfi(), q.floor, info, q.threshold, q.d) : protohit_search(plane, noise(q.floor, q.power), o);
    std::vector<double> s(N); for (int64_t i = 0; i < N; ++i) s[i] = (q.x[i] - q.floor) / row[i / n];
    std::vector<char> want(N, 0), got(N, 0); size_t wanted = 0;
    for (int64_t i = 0; i < N; ++i) {
        int64_t r = i / n, c = i % n; bool best = r >= q.d && r + q.d < D && c >= q.d && c + q.d < n && s[i] > q.threshold;
        for (int64_t j = 0; best && j < N; ++j) if (j != i && iabs(r - j / n) + iabs(c - j % n) <= q.d && !(s[i] > s[j])) best = false;
        want[i] = best; wanted += best;
    }
    vf_check(hits.size() == wanted, "one protohit for every dominant cell"); if (hits.size() != wanted) return;
    for (auto &h : hits) {
        int64_t m = h.index_max.drift_index * n + h.index_max.frequency_channel; bool valid = h.index_max.frequency_channel >= 0 && h.index_max.frequency_channel < n && m >= 0 && m < N && want[m] && !got[m];
        vf_check(valid, "the maximum dominates its neighbourhood"); if (!valid) return; got[m] = 1; int64_t r = m / n, c = m % n;
        vf_close(h.snr, s[m], 1e-3, "signal to noise of the maximum"); vf_check(h.max_integration == q.x[m], "power of the maximum"); vf_close(h.desmeared_noise, row[r], 1e-5, "noise at the maximum");
        vf_check(h.locations.size() == 1 && h.locations[0].drift_index == r && h.locations[0].frequency_channel == c, "its only cell is the maximum");
        vf_check(h.rfi_counts.size() == 3 && h.rfi_counts.count(flag_values::low_spectral_kurtosis) && h.rfi_counts.count(flag_values::high_spectral_kurtosis) && h.rfi_counts.count(flag_values::filter_rolloff), "flag counts present");
        vf_check(h.rfi_counts[flag_values::low_spectral_kurtosis] == low_count(m), "low kurtosis count of the maximum"); vf_check(h.rfi_counts[flag_values::high_spectral_kurtosis] == high_count(m), "high kurtosis count of the maximum"); vf_check(h.rfi_counts[flag_values::filter_rolloff] == rolloff_count(m), "rolloff count of the maximum");
        int64_t lo = c - 1, hi = c + 1; // the first channels on either side that are not above the threshold or stop decreasing
        while (lo >= 0 && s[r * n + lo] > q.threshold && s[r * n + lo] < s[r * n + lo + 1]) --lo;
        while (hi < n && s[r * n + hi] > q.threshold && s[r * n + hi] < s[r * n + hi - 1]) ++hi;
        vf_check(h.binwidth == hi - lo, "width around the maximum"); vf_check(h.index_center.drift_index == r && h.index_center.frequency_channel == (hi + lo) / 2, "centre of the run");
    }
    vf_cover("end");
}
static void sparse(Shape sh, std::vector<int64_t> cells, int d, int wide, float background, bool direct) {
    Search q{sh}; q.d = d; q.T = 16; q.wide = wide; q.power = 5; q.floor = vf_realf("floor", -10, 10); q.threshold = vf_realf("threshold", 0.5, 20); q.x.assign(sh[0] * sh[1], background);
    for (auto c : cells) q.x[c] = vf_realf("x", -100, 100); maxima(q, direct);
}
ENTRY e_cross() { sparse({3, 3}, {1, 3, 4, 5, 7}, 1, vf_pick("smeared", 0, 1), -100, vf_pick("direct", 0, 1)); } // one candidate and all its neighbours
ENTRY e_corners() { sparse({3, 3}, {0, 2, 4, 6, 8}, 1, 1, -100, false); } // diagonal cells are no neighbours
ENTRY e_row() { sparse({3, 6}, {6, 7, 8, 9, 10, 11}, 1, 0, -100, true); } // several candidates in one row
ENTRY e_column() { sparse({5, 3}, {1, 4, 7, 10, 13}, 1, 1, -100, false); }
ENTRY e_pairs() { // any two or three cells
    int64_t a = vf_pick("first", 0, 19), b = vf_pick("second", 0, 19); if (a >= b || (!THOROUGH && (a + 2 * b) % 3)) return; sparse({4, 5}, {a, b}, 1, 1, vf_pick("level", 0, 1) ? 0 : -100, false);
}
ENTRY e_distance_two() { int64_t b = vf_pick("other", 0, 34); if (b == 17) return; sparse({5, 7}, {17, b}, 2, 1, -100, false); }
ENTRY e_distance_three() { static const int64_t N[] = {3, 15, 25, 8, 18, 31, 44, 37, 36, 27, 33, 21, 28, 0}; sparse({7, 7}, {24, N[vf_pick("other", 0, 13)], 23}, 3, 1, -100, false); }
ENTRY e_width() { sparse({3, 8}, {9, 10, 11, 12, 13}, 1, 0, vf_pick("level", 0, 1) ? 0 : -100, true); }
ENTRY e_many() { // more channels and maxima than 8-, 15- or 16-bit indices count
    int64_t n = 70000, per = 200, groups = n / per; auto cells = plain({3, n}); auto p = cells.data_ptr<float>(); float x = vf_realf("x", 30, 90); for (int64_t g = 0; g < groups; ++g) { int64_t c = g * per + 30, w = g == 4 ? 70 : 3; for (int64_t k = -w; k <= w; ++k) p[n + c + (g == 4 ? 120 : 0) + k] = 160 - (k < 0 ? -k : k); p[n + c + (g == 4 ? 120 : 0)] = g == groups - 1 ? x + 140 : 165 + g % 7; }
    std::vector<protohit_drift_info> info(3, protohit_drift_info{1}); auto plane = drift_plane(cells, 16, 0); auto hits = find_local_maxima_above_threshold(cells, plane.integrated_rfi(), 0, info, 10, 1); vf_check((int64_t)hits.size() == groups, "one protohit for every dominant cell"); if ((int64_t)hits.size() != groups) return; std::vector<char> seen(groups, 0);
    for (auto &h : hits) { int64_t g = h.index_max.frequency_channel / per; bool valid = h.index_max.frequency_channel >= 0 && g < groups && !seen[g]; vf_check(valid, "each maximum once"); if (!valid) return; seen[g] = 1; int64_t c = g * per + 30 + (g == 4 ? 120 : 0), w = g == 4 ? 70 : 3;
        vf_check(h.index_max.drift_index == 1 && h.index_max.frequency_channel == c, "the maximum dominates its neighbourhood"); vf_check(h.binwidth == 2 * w + 2 && h.index_center.drift_index == 1 && h.index_center.frequency_channel == c, "width around the maximum"); vf_close(h.snr, g == groups - 1 ? x + 140 : 165.f + g % 7, 1e-3, "signal to noise of the maximum"); vf_check(h.rfi_counts[flag_values::low_spectral_kurtosis] == low_count(n + c), "low kurtosis count of the maximum"); }
    vf_cover("end");
}
