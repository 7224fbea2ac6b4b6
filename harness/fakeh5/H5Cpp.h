// A model of the part of the HDF5 library that bliss uses: one file with a "data" dataset of any rank and typed attributes.
// Everything the library would reject (selections outside the dataset, ranks or sizes that differ) throws as it does.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include <functional>
#include <array>
#include <algorithm>
typedef unsigned long long hsize_t; typedef long long hssize_t; typedef std::string H5std_string; typedef int64_t hid_t; typedef int herr_t;
#define H5_VERSION_GE(a, b, c) 1
#define H5F_ACC_RDONLY 0u
#define H5P_DEFAULT 0
enum H5T_class_t { H5T_INTEGER = 0, H5T_FLOAT = 1, H5T_STRING = 3, H5T_VLEN = 9, H5T_COMPOUND = 6 };
enum H5S_class_t { H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 };
enum H5S_seloper_t { H5S_SELECT_SET = 0 };
static inline herr_t H5PLsize(unsigned *n) { *n = 0; return 0; }
static inline long H5PLget(unsigned, char *, size_t) { return 0; }
static inline herr_t H5free_memory(void *p) { std::free(p); return 0; }
namespace H5 {
struct Exception { std::string what = "hdf5"; std::string getDetailMsg() const { return what; } std::string getFuncName() const { return what; } const char *getCDetailMsg() const { return what.c_str(); } static void dontPrint() {} static void printErrorStack() {} };
struct FileIException : Exception {}; struct DataSetIException : Exception {}; struct DataSpaceIException : Exception {}; struct AttributeIException : Exception {}; struct DataTypeIException : Exception {};
struct DataType {
    H5T_class_t cls = H5T_INTEGER; int size = 0; bool sign = false, big = false, variable = false;
    bool operator==(const DataType &o) const { return cls == o.cls && size == o.size && sign == o.sign && big == o.big && variable == o.variable; }
    bool operator!=(const DataType &o) const { return !(*this == o); }
    H5T_class_t getClass() const { return cls; } bool isVariableStr() const { return variable; } void close() {} bool detectClass(H5T_class_t c) const { return cls == c; } size_t getSize() const { return size; }
};
struct PredType : DataType {
    PredType(H5T_class_t c, int n, bool s, bool b = false) { cls = c; size = n; sign = s; big = b; }
    static const PredType NATIVE_INT8, NATIVE_UINT8, NATIVE_INT16, NATIVE_UINT16, NATIVE_INT32, NATIVE_UINT32, NATIVE_INT64, NATIVE_UINT64, NATIVE_FLOAT, NATIVE_DOUBLE;
};
inline const PredType PredType::NATIVE_INT8(H5T_INTEGER, 1, true), PredType::NATIVE_UINT8(H5T_INTEGER, 1, false), PredType::NATIVE_INT16(H5T_INTEGER, 2, true), PredType::NATIVE_UINT16(H5T_INTEGER, 2, false), PredType::NATIVE_INT32(H5T_INTEGER, 4, true), PredType::NATIVE_UINT32(H5T_INTEGER, 4, false), PredType::NATIVE_INT64(H5T_INTEGER, 8, true), PredType::NATIVE_UINT64(H5T_INTEGER, 8, false), PredType::NATIVE_FLOAT(H5T_FLOAT, 4, true), PredType::NATIVE_DOUBLE(H5T_FLOAT, 8, true);
} // namespace H5
namespace h5model {
struct Attr { H5::DataType type; int64_t i = 0; double f = 0; std::string s; std::vector<std::string> v; bool unset = false; }; // unset: elements without a value are null pointers
struct Dataset { std::vector<int64_t> dims; std::vector<float> cells; std::map<std::string, Attr> attrs; int reads = 0; };
inline std::map<std::string, Dataset> files; inline bool has_data = true, has_mask = false; inline std::map<std::string, Attr> file_attrs;
} // namespace h5model
static inline int H5Lexists(hid_t, const char *n, int) { return std::string(n) == "mask" ? h5model::has_mask : h5model::has_data; }
namespace H5 {
struct Attribute {
    h5model::Attr *a;
    DataType getDataType() const { return a->type; } H5T_class_t getTypeClass() const { return a->type.cls; } void close() {} size_t getStorageSize() const { return getInMemDataSize(); } struct DataSpace getSpace() const;
    size_t getInMemDataSize() const { return a->type.cls == H5T_STRING ? (a->type.variable ? sizeof(char *) : a->type.size) * (a->v.empty() ? 1 : a->v.size()) : a->type.size; }
    template <class T> static void put(void *p, T v, bool big) { unsigned char b[sizeof(T)]; std::memcpy(b, &v, sizeof(T)); if (big) for (size_t k = 0; k < sizeof(T) / 2; ++k) { auto t = b[k]; b[k] = b[sizeof(T) - 1 - k]; b[sizeof(T) - 1 - k] = t; } std::memcpy(p, b, sizeof(T)); }
    void read(const DataType &m, void *p) const {
        if (m.cls == H5T_STRING) {
            if (a->type.cls != H5T_STRING || m.variable != a->type.variable) throw AttributeIException();
            if (!m.variable) { if (m.size != a->type.size) throw AttributeIException(); size_t n = a->v.empty() ? 1 : a->v.size(); for (size_t e = 0; e < n; ++e) { const std::string &t = a->v.empty() ? a->s : a->v[e]; for (int k = 0; k < m.size; ++k) ((char *)p)[e * m.size + k] = k < (int)t.size() ? t[k] : 0; } return; }
            auto one = [](const std::string &s) { char *c = (char *)std::malloc(s.size() + 1); std::memcpy(c, s.data(), s.size()); c[s.size()] = 0; return c; };
            if (a->v.empty()) *(char **)p = one(a->s); else for (size_t k = 0; k < a->v.size(); ++k) ((char **)p)[k] = a->unset && a->v[k].empty() ? nullptr : one(a->v[k]);
            return;
        }
        if (a->type.cls == H5T_STRING) throw AttributeIException();
        bool fl = a->type.cls == H5T_FLOAT;
        if (m.cls == H5T_FLOAT) { if (m.size == 4) put<float>(p, fl ? (float)a->f : (float)a->i, m.big); else put<double>(p, fl ? a->f : (double)a->i, m.big); }
        else { int64_t v = fl ? (int64_t)a->f : a->i; if (m.size == 1) put<int8_t>(p, v, m.big); else if (m.size == 2) put<int16_t>(p, v, m.big); else if (m.size == 4) put<int32_t>(p, v, m.big); else put<int64_t>(p, v, m.big); }
    }
    void read(const DataType &m, std::string &s) const { (void)m; if (a->type.cls != H5T_STRING) throw AttributeIException(); s = a->s; }
};
struct DataSpace {
    std::vector<int64_t> dims, start, count;
    DataSpace() = default; DataSpace(int n, const hsize_t *d) : dims(d, d + n), start(n, 0), count(d, d + n) {}
    int getSimpleExtentNdims() const { return dims.size(); }
    int getSimpleExtentDims(hsize_t *d, hsize_t * = nullptr) const { for (size_t k = 0; k < dims.size(); ++k) d[k] = dims[k]; return dims.size(); }
    hssize_t getSimpleExtentNpoints() const { hssize_t n = 1; for (auto k : dims) n *= k; return n; } hssize_t getSelectNpoints() const { hssize_t n = 1; for (auto k : count) n *= k; return n; }
    bool isSimple() const { return true; } H5S_class_t getSimpleExtentType() const { return dims.empty() ? H5S_SCALAR : H5S_SIMPLE; } void close() {} void selectAll() { start.assign(dims.size(), 0); count = dims; step.clear(); } void selectNone() { start.assign(dims.size(), 0); count.assign(dims.size(), 0); step.clear(); }
    bool selectValid() const { for (size_t k = 0; k < dims.size(); ++k) if (start[k] < 0 || count[k] < 0 || start[k] > dims[k] || (count[k] && start[k] + (count[k] - 1) * by(k) >= dims[k])) return false; return true; }
    std::vector<int64_t> step; int64_t by(size_t k) const { return step.empty() ? 1 : step[k]; } static const DataSpace ALL; bool all = false;
    void selectHyperslab(H5S_seloper_t, const hsize_t *c, const hsize_t *s, const hsize_t *stride = nullptr, const hsize_t *block = nullptr) { step.clear(); if (stride) { step.assign(stride, stride + dims.size()); for (auto k : step) if (k < 1) throw DataSpaceIException(); } if (block) for (size_t k = 0; k < dims.size(); ++k) if (block[k] != 1) std::abort(); for (size_t k = 0; k < dims.size(); ++k) { start[k] = s[k]; count[k] = c[k]; } }
};
inline const DataSpace DataSpace::ALL = [] { DataSpace s; s.all = true; return s; }();
inline DataSpace Attribute::getSpace() const { if (a->v.empty()) return DataSpace(); hsize_t n = a->v.size(); return DataSpace(1, &n); }
struct DataSet {
    h5model::Dataset *d = nullptr;
    bool attrExists(const std::string &k) const { return d->attrs.count(k); } int getNumAttrs() const { return d->attrs.size(); } DataType getDataType() const { return PredType::NATIVE_FLOAT; } H5T_class_t getTypeClass() const { return H5T_FLOAT; } size_t getInMemDataSize() const { return getStorageSize(); } hsize_t getStorageSize() const { hsize_t n = 4; for (auto k : d->dims) n *= k; return n; } void close() {} hid_t getId() const { return 2; }
    Attribute openAttribute(const std::string &k) const { if (!d->attrs.count(k)) throw AttributeIException(); return Attribute{&d->attrs[k]}; }
    DataSpace getSpace() const { std::vector<hsize_t> n(d->dims.begin(), d->dims.end()); return DataSpace(n.size(), n.data()); }
    void read(void *p, const DataType &t, const DataSpace &m = DataSpace::ALL, const DataSpace &f = DataSpace::ALL) const {
        DataSpace file = f.all ? getSpace() : f, mem = m.all ? file : m; if (!mem.step.empty()) std::abort();
        int64_t selected = 1, room = 1; for (auto c : file.count) selected *= c; for (auto c : mem.count) room *= c;
        if (selected != room || file.dims != d->dims) throw DataSetIException();
        for (size_t k = 0; k < file.dims.size(); ++k) if (file.start[k] < 0 || file.count[k] < 0 || file.start[k] > file.dims[k] || (file.count[k] && (file.count[k] > file.dims[k] || (file.count[k] - 1) * file.by(k) >= file.dims[k] - file.start[k]))) throw DataSetIException();
        if (!(t == PredType::NATIVE_FLOAT) && !(t == PredType::NATIVE_DOUBLE)) throw DataSetIException();
        ++d->reads; std::vector<int64_t> at(file.dims.size(), 0);
        for (int64_t i = 0; i < selected; ++i) {
            int64_t w = 0; for (size_t k = 0; k < at.size(); ++k) w = w * file.dims[k] + file.start[k] + at[k] * file.by(k);
            float v = d->cells.empty() ? (float)(w % 65536) : d->cells[w]; if (t.size == 8) ((double *)p)[i] = v; else ((float *)p)[i] = v;
            for (size_t k = at.size(); k-- > 0;) { if (++at[k] < file.count[k]) break; at[k] = 0; }
        }
    }
};
struct H5File {
    std::string name; H5File() = default; H5File(const char *n, unsigned m) : H5File(std::string(n), m) {} H5File(const std::string &n, unsigned) : name(n) { if (!h5model::files.count(name)) throw FileIException(); } void close() {} bool nameExists(const std::string &n) const { return n == "mask" ? h5model::has_mask : n == "data" && h5model::has_data; } bool exists(const std::string &n) const { return nameExists(n); } DataSet openDataSet(const std::string &n) const { return openDataSet(n.c_str()); }
    DataSet openDataSet(const char *n) const { bool mask = std::string(n) == "mask"; if (mask ? !h5model::has_mask : !h5model::has_data) throw FileIException(); return DataSet{&h5model::files[name]}; }
    hid_t getId() const { return 1; } std::string getFileName() const { return name; }
    bool attrExists(const std::string &k) const { return h5model::file_attrs.count(k); }
    Attribute openAttribute(const std::string &k) const { if (!h5model::file_attrs.count(k)) throw AttributeIException(); return Attribute{&h5model::file_attrs[k]}; }
};
} // namespace H5
