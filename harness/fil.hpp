// A filterbank file with given data layout and header, served by the model of HDF5 in fakeh5.
#pragma once
#include "cc.hpp"
#include <H5Cpp.h>
#include <file_types/h5_filterbank_file.hpp>
#include <core/scan.hpp>
#include <core/cadence.hpp>
using h5model::Attr;
FRESH_IN(h5model, files); FRESH_IN(h5model, has_data); FRESH_IN(h5model, has_mask); FRESH_IN(h5model, file_attrs);
static inline Attr number(int64_t v) { Attr a; a.type = H5::PredType::NATIVE_INT64; a.i = v; return a; }
static inline Attr real(double v) { Attr a; a.type = H5::PredType::NATIVE_DOUBLE; a.f = v; return a; }
static inline Attr text(const std::string &s) { Attr a; a.type.cls = H5T_STRING; a.type.size = 8; a.type.variable = true; a.s = s; return a; }
static inline Attr texts(const std::vector<std::string> &v) { Attr a = text(""); a.v = v; return a; }
static inline float cell(int64_t t, int64_t f) { return 1000 * t + f; } // what the file holds
struct Header { double fch1 = 1000, foff = -0.5, tsamp = 18.253611008, tstart = 57650.78209490741; int64_t T = 2, nchans = 12; };
static inline void file_of(const Header &h, bool filled = true, const std::string &name = "file.h5") {
    auto &d = h5model::files[name]; d = h5model::Dataset(); d.dims = {h.T, 1, h.nchans};
    if (filled) for (int64_t t = 0; t < h.T; ++t) for (int64_t f = 0; f < h.nchans; ++f) d.cells.push_back(cell(t, f));
    d.attrs["fch1"] = real(h.fch1); d.attrs["foff"] = real(h.foff); d.attrs["tsamp"] = real(h.tsamp); d.attrs["tstart"] = real(h.tstart);
    d.attrs["machine_id"] = number(20); d.attrs["source_name"] = text("Voyager"); d.attrs["src_dej"] = real(1.1); d.attrs["src_raj"] = real(2.7); d.attrs["telescope_id"] = number(6);
    d.attrs["az_start"] = real(3.3); d.attrs["za_start"] = real(4.9); d.attrs["data_type"] = number(1); d.attrs["nbits"] = number(32); d.attrs["nifs"] = number(1); d.attrs["nchans"] = number(h.nchans);
    d.attrs["DIMENSION_LABELS"] = texts({"time", "feed_id", "frequency"});
    h5model::file_attrs["CLASS"] = text("FILTERBANK"); h5model::file_attrs["VERSION"] = text("1.0");
}
static inline scan opened(const Header &h, int per_coarse, const std::string &name = "file.h5") { file_of(h, true, name); return scan(name, per_coarse); }
// channel c of a scan holds fine channels [first, first + n) of the file
static inline void holds(coarse_channel &cc, const Header &h, int64_t first, int64_t n, int64_t number) {
    vf_check(cc.nchans() == n && cc.ntsteps() == h.T, "extent of the coarse channel"); vf_check(cc._coarse_channel_number == number, "its number");
    vf_close(cc.fch1(), h.fch1 + h.foff * first, 1e-6, "frequency of its first fine channel"); vf_check(cc.foff() == h.foff && cc.tsamp() == h.tsamp && cc.tstart() == h.tstart, "widths and times");
    ndarray d = cc.data(), m = cc.mask(); bool shape = d.shape() == Shape{h.T, n} && m.shape() == Shape{h.T, n}; vf_check(shape, "shape of data and mask"); if (!shape) return;
    bool same = true, clear = true; for (int64_t t = 0; t < h.T; ++t) for (int64_t f = 0; f < n; ++f) { if (d.scalarize<float>({t, f}) != cell(t, first + f)) same = false; if (m.scalarize<uint8_t>({t, f}) != 0) clear = false; }
    vf_check(same, "its data are that region of the file"); vf_check(clear, "nothing is flagged yet");
}
