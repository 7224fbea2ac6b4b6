// D05: connected components of the drift plane.
#include "cc.hpp"
#include <drift_search/protohit_search.hpp>
#include <drift_search/connected_components.hpp>
#include <drift_search/hit_search_options.hpp>
#include <cmath>
struct Search { Shape sh; std::vector<float> x; float floor, power, threshold; int64_t T; int wide, d; };
static void components(const Search &q, bool direct) {
    int64_t D = q.sh[0], n = q.sh[1], N = D * n; auto cells = plain(q.sh); for (int64_t i = 0; i < N; ++i) cells.data_ptr<float>()[i] = q.x[i];
    auto plane = drift_plane(cells, q.T, q.wide); std::vector<double> row(D); std::vector<protohit_drift_info> info;
    for (int64_t i = 0; i < D; ++i) { row[i] = q.power / std::sqrt((double)q.T * (q.wide && i % 2 ? 4 : 1)); info.push_back({(float)row[i]}); }
    hit_search_options o; o.method = hit_search_methods::CONNECTED_COMPONENTS; o.snr_threshold = q.threshold; o.neighbor_l1_dist = q.d;
    auto hits = direct ? find_components_above_threshold(cells, plane.integrated_rfi(), q.floor, info, q.threshold, q.d) : protohit_search(plane, noise(q.floor, q.power), o);
    std::vector<double> s(N); for (int64_t i = 0; i < N; ++i) s[i] = (q.x[i] - q.floor) / row[i / n];
    std::vector<int> group(N, -1); std::vector<std::vector<int64_t>> want; // the groups, by definition
    for (int64_t i = 0; i < N; ++i) if (group[i] < 0 && s[i] > q.threshold) {
        std::vector<int64_t> m{i}; group[i] = want.size(); std::vector<char> seen(N, 0); seen[i] = 1;
        for (size_t k = 0; k < m.size(); ++k) for (int64_t j = 0; j < N; ++j) if (!seen[j] && iabs(m[k] / n - j / n) + iabs(m[k] % n - j % n) <= q.d) {
            if (s[j] > q.threshold / 2) { seen[j] = 1; group[j] = want.size(); m.push_back(j); }
        }
        want.push_back(m);
    }
    vf_check(hits.size() == want.size(), "one protohit for every group of connected cells"); if (hits.size() != want.size()) return;
    std::vector<char> reported(want.size(), 0);
    for (auto &h : hits) {
        vf_check(h.locations.size() >= 1, "a protohit has cells"); if (h.locations.empty()) return;
        std::vector<int64_t> cellsof; for (auto &l : h.locations) { bool in = l.drift_index >= 0 && l.drift_index < D && l.frequency_channel >= 0 && l.frequency_channel < n; vf_check(in, "cells within the plane"); if (!in) return; cellsof.push_back(l.drift_index * n + l.frequency_channel); }
        int g = group[cellsof[0]]; vf_check(g >= 0 && !reported[g], "each group reported once"); if (g < 0 || reported[g]) return; reported[g] = 1;
        std::vector<char> in(N, 0); bool distinct = true; for (auto c : cellsof) { if (in[c]) distinct = false; in[c] = 1; }
        vf_check(distinct, "each cell listed once"); for (int64_t i = 0; i < N; ++i) vf_check((in[i] != 0) == (group[i] == g), "the cells of a protohit are its group");
        int64_t mx = h.index_max.drift_index * n + h.index_max.frequency_channel; bool valid = mx >= 0 && mx < N && in[mx]; vf_check(valid, "the maximum is one of the cells"); if (!valid) return;
        int64_t lo = mx % n, hi = mx % n;
        for (auto c : cellsof) { vf_check(s[mx] >= s[c], "the maximum has the largest signal to noise"); if (c / n == mx / n) { if (c % n < lo) lo = c % n; if (c % n > hi) hi = c % n; } }
        vf_close(h.snr, s[mx], 1e-3, "signal to noise of the maximum"); vf_check(h.max_integration == q.x[mx], "power of the maximum"); vf_close(h.desmeared_noise, row[mx / n], 1e-5, "noise at the maximum");
        vf_check(h.rfi_counts.size() == 3 && h.rfi_counts.count(flag_values::low_spectral_kurtosis) && h.rfi_counts.count(flag_values::high_spectral_kurtosis) && h.rfi_counts.count(flag_values::filter_rolloff), "flag counts present");
        vf_check(h.rfi_counts[flag_values::low_spectral_kurtosis] == low_count(mx), "low kurtosis count of the maximum"); vf_check(h.rfi_counts[flag_values::high_spectral_kurtosis] == high_count(mx), "high kurtosis count of the maximum"); vf_check(h.rfi_counts[flag_values::filter_rolloff] == rolloff_count(mx), "rolloff count of the maximum");
        vf_check(h.binwidth == hi - lo, "width at the drift of the maximum"); vf_check(h.index_center.drift_index == mx / n && h.index_center.frequency_channel == (hi + lo) / 2, "centre at the drift of the maximum");
    }
    vf_cover("end");
}
static float threshold() { float t = vf_realf("threshold", 0.5, 20); return t; }
ENTRY e_all() { // every cell of small planes
    static const int64_t S[][2] = {{1, 4}, {4, 1}, {2, 2}, {1, 1}}; auto s = S[vf_pick("shape", 0, 3)]; Search q{{s[0], s[1]}}; q.d = vf_pick("distance", 0, 2); q.T = 4; q.wide = 1; q.power = 3; q.floor = vf_realf("floor", -10, 10); q.threshold = threshold();
    for (int64_t i = 0; i < s[0] * s[1]; ++i) q.x.push_back(vf_realf("x", -100, 100)); components(q, vf_pick("direct", 0, 1));
}
ENTRY e_six() {
    Search q{{2, 3}}; q.d = vf_pick("distance", 1, 2); q.T = 4; q.wide = 0; q.power = 2; q.floor = 1; q.threshold = 4;
    for (int i = 0; i < 6; ++i) q.x.push_back(vf_realf("x", -100, 100)); components(q, true);
}
static void sparse(Shape sh, std::initializer_list<int64_t> cells, int d, bool alternate, float background) {
    Search q{sh}; q.d = d; q.T = 16; q.wide = alternate; q.power = 4; q.floor = 0; q.threshold = threshold(); q.x.assign(sh[0] * sh[1], background);
    for (auto c : cells) q.x[c] = vf_realf("x", -100, 100); components(q, false);
}
ENTRY e_sparse() { // a few cells anywhere on a larger plane
    int64_t a = vf_pick("first", 0, 19), b = vf_pick("second", 0, 19); if (a >= b || (!THOROUGH && (a + 2 * b) % 3)) return;
    sparse({4, 5}, {a, b}, vf_pick("distance", 1, THOROUGH ? 4 : 3), true, 0);
}
ENTRY e_three() { static const int64_t C[][3] = {{0, 7, 14}, {3, 6, 12}, {2, 7, 17}, {5, 9, 10}, {0, 4, 19}, {1, 6, 11}, {11, 12, 13}}; auto c = C[vf_pick("cells", 0, 6)]; sparse({4, 5}, {c[0], c[1], c[2]}, vf_pick("distance", 1, 3), true, 0); }
ENTRY e_bridges() { // everything at a level between half the threshold and the threshold
    int64_t a = vf_pick("first", 0, 11); sparse({3, 4}, {a, (a + 5) % 12}, vf_pick("distance", 1, 2), false, 5);
}
ENTRY e_wide() { // the default neighbourhood
    int64_t a = vf_pick("first", 0, 3), g = vf_pick("gap", 5, 9), r = vf_pick("row", 0, 2); sparse({3, 16}, {a, r * 16 + a + g}, 7, true, 0);
}
ENTRY e_mask() { // groups of set cells of a mask, for a given neighbourhood
    static const int64_t S[][2] = {{2, 3}, {1, 4}, {4, 1}, {3, 2}}; auto z = S[vf_pick("shape", 0, 3)]; Shape sh{z[0], z[1]}; int64_t n = z[1], N = z[0] * n; auto a = make<uint8_t>("mask", sh, vf_pick("layout", 0, NLAYOUTS - 1)); if (!view_ok(a)) { vf_cover("end"); return; }
    static const std::vector<bland::nd_coords> W[] = {{{0, 1}, {0, -1}, {1, 0}, {-1, 0}}, {{0, 1}, {0, -1}, {1, 1}, {1, 0}, {1, -1}, {-1, 1}, {-1, 0}, {-1, -1}}, {{0, 2}, {0, -2}}, {}}; auto &w = W[vf_pick("neighbourhood", 0, 3)];
    std::vector<char> set(N); for (int64_t i = 0; i < N; ++i) set[i] = a.at(i) != 0 ? 1 : 0; auto hits = find_components_in_binary_mask(a.v, w);
    std::vector<int> group(N, -1); int groups = 0; for (int64_t i = 0; i < N; ++i) if (set[i] && group[i] < 0) { std::vector<int64_t> m{i}; group[i] = groups; for (size_t k = 0; k < m.size(); ++k) for (auto &o : w) { int64_t r = m[k] / n + o[0], c = m[k] % n + o[1]; if (r >= 0 && r < z[0] && c >= 0 && c < n && set[r * n + c] && group[r * n + c] < 0) { group[r * n + c] = groups; m.push_back(r * n + c); } } ++groups; }
    vf_check((int)hits.size() == groups, "one component for every group of set cells"); if ((int)hits.size() != groups) return; std::vector<int> left(N); for (int64_t i = 0; i < N; ++i) left[i] = set[i];
    for (auto &h : hits) { vf_check(!h.locations.empty(), "a component has cells"); if (h.locations.empty()) return; int g = -1; for (auto &l : h.locations) { bool in = l.drift_index >= 0 && l.drift_index < z[0] && l.frequency_channel >= 0 && l.frequency_channel < n; vf_check(in, "cells within the mask"); if (!in) return; int64_t c = l.drift_index * n + l.frequency_channel; if (g < 0) g = group[c]; vf_check(left[c] == 1 && group[c] == g, "the cells of a component are its group, each once"); left[c] = 0; } }
    bool all = true; for (int64_t i = 0; i < N; ++i) if (left[i]) all = false; vf_check(all, "every set cell is in a component"); a.unchanged("mask unchanged"); vf_cover("end");
}
ENTRY e_wide_mask() { // more cells than 8-, 15- or 16-bit indices count
    int64_t n = 70000, per = 2000, groups = n / per, k = vf_pick("moved", 0, groups - 1) / 34; ndarray a({3, n}, dt<uint8_t>(), CPU()); auto p = a.data_ptr<uint8_t>(); for (int64_t i = 0; i < 3 * n; ++i) p[i] = 0; uint8_t any = vf_u8("set"); vf_assume(any != 0);
    for (int64_t g = 0; g < groups; ++g) { int64_t c = g * per + 30 + k; for (int64_t i = 0; i < 5; ++i) p[n + c + i] = g == 20 ? any : 1 + g; p[2 * n + c + 4] = 255; p[c] = g == 33 ? any : 1; }
    auto hits = find_components_in_binary_mask(a, {{0, 1}, {0, -1}, {1, 0}, {-1, 0}}); vf_check((int64_t)hits.size() == groups, "one component for every group of set cells"); if ((int64_t)hits.size() != groups) return; std::vector<char> seen(groups, 0);
    for (auto &h : hits) { bool whole = h.locations.size() == 7; vf_check(whole, "the cells of a component are its group, each once"); if (!whole) return; int64_t g = h.locations.front().frequency_channel / per, s = 0, rows = 0; bool valid = g >= 0 && g < groups && !seen[g]; vf_check(valid, "each group once"); if (!valid) return; seen[g] = 1;
        for (auto &l : h.locations) { int64_t c = l.frequency_channel - (g * per + 30 + k); vf_check(c >= 0 && c < 5, "the cells of a component are its group, each once"); s += (c + 1) * (c + 1); rows += l.drift_index; } vf_check(s == 55 + 25 + 1 && rows == 7, "the cells of a component are its group, each once"); }
    vf_cover("end");
}
ENTRY e_many() { // more channels, groups and cells of a group than 8-, 15- or 16-bit indices count
    int64_t n = 70000, per = vf_pick("spacing", 0, 1) ? 200 : 2000; auto cells = plain({3, n}); auto p = cells.data_ptr<float>(); int64_t groups = n / per; float x = vf_realf("x", 30, 90); // per group: a run of cells in the middle row with one below its end; the fifth has a long one
    for (int64_t g = 0; g < groups; ++g) { int64_t c = g * per + 30, len = g == 4 ? per - 60 : 3; for (int64_t k = 0; k < len; ++k) p[n + c + k] = 20; p[2 * n + c + len - 1] = 25 + g % 7; } p[2 * n + (groups - 1) * per + 32] = x;
    std::vector<protohit_drift_info> info(3, protohit_drift_info{1}); auto plane = drift_plane(cells, 16, 0); auto hits = find_components_above_threshold(cells, plane.integrated_rfi(), 0, info, 10, 2); vf_check((int64_t)hits.size() == groups, "one protohit for every group of connected cells"); if ((int64_t)hits.size() != groups) return; std::vector<char> seen(groups, 0);
    for (auto &h : hits) { int64_t g = h.index_max.frequency_channel / per; bool valid = h.index_max.frequency_channel >= 0 && g < groups && !seen[g]; vf_check(valid, "each group reported once"); if (!valid) return; seen[g] = 1; int64_t c = g * per + 30, len = g == 4 ? per - 60 : 3;
        vf_check(h.index_max.drift_index == 2 && h.index_max.frequency_channel == c + len - 1, "the maximum has the largest signal to noise"); vf_check((int64_t)h.locations.size() == len + 1, "the cells of a protohit are its group"); vf_check(h.binwidth == 0 && h.index_center.drift_index == 2 && h.index_center.frequency_channel == c + len - 1, "centre at the drift of the maximum"); vf_close(h.snr, g == groups - 1 ? x : 25.f + g % 7, 1e-3, "signal to noise of the maximum");
        int64_t m = 2 * n + c + len - 1; vf_check(h.rfi_counts[flag_values::low_spectral_kurtosis] == low_count(m), "low kurtosis count of the maximum"); int64_t s = 0; for (auto &l : h.locations) { vf_check(l.frequency_channel >= c && l.frequency_channel < c + len && l.drift_index > 0 && l.drift_index < 3, "the cells of a protohit are its group"); s += l.frequency_channel - c; } vf_check(s == len * (len - 1) / 2 + len - 1, "each cell listed once"); }
    vf_cover("end");
}
