// Tensors as JSON {"t":type,"s":shape,"d":elements}: elements are integers.
#ifndef VF_TENSORIO_H
#define VF_TENSORIO_H
#include "vf.h"
#include <cmath>
#include "core/tensor.h"
#include "core/tensor_builder.h"
#include "core/dtype.h"
#include "global/memory_device.h"
namespace vf {
    inline std::string dts(ts::DTYPE t) {
        switch (t) {
            case ts::VOID: return "void"; case ts::INT8: return "int8"; case ts::UINT8: return "uint8"; case ts::INT16: return "int16";
            case ts::UINT16: return "uint16"; case ts::INT32: return "int32"; case ts::UINT32: return "uint32"; case ts::INT64: return "int64";
            case ts::UINT64: return "uint64"; case ts::FLOAT16: return "float16"; case ts::FLOAT32: return "float32"; case ts::FLOAT64: return "float64";
            case ts::CHAR8: return "char8"; case ts::BOOLEAN: return "boolean";
            default: return "type" + std::to_string(int(t));
        }
    }
    // what is no 32-bit integer is told by a value no operation on test data yields
    inline std::string num(double v) {
        if (std::isnan(v)) return "-2147483648";
        if (std::isinf(v)) return v > 0 ? "2147483646" : "-2147483646";
        if (v == std::floor(v) && std::fabs(v) <= 2147483647.0) return std::to_string((long long) v);
        return "2147483645";
    }
    inline double element(const ts::Tensor &t, int i) {
        switch (t.dtype()) {
            case ts::INT8: return t.data<int8_t>()[i]; case ts::UINT8: return t.data<uint8_t>()[i];
            case ts::INT16: return t.data<int16_t>()[i]; case ts::UINT16: return t.data<uint16_t>()[i];
            case ts::INT32: return t.data<int32_t>()[i]; case ts::UINT32: return t.data<uint32_t>()[i];
            case ts::INT64: return double(t.data<int64_t>()[i]); case ts::UINT64: return double(t.data<uint64_t>()[i]);
            case ts::FLOAT32: return t.data<float>()[i]; case ts::FLOAT64: return t.data<double>()[i];
            case ts::CHAR8: return t.data<char>()[i]; case ts::BOOLEAN: return t.data<uint8_t>()[i];
            case ts::FLOAT16: { ts::Tensor f = ts::tensor::cast(ts::FLOAT32, t); return f.data<float>()[i]; }
            default: return std::nan("");
        }
    }
    // scale: elements of floating point types are multiplied and rounded (for results that are no integers); 0: as they are
    inline Raw tj1(const ts::Tensor &t, double scale = 0) {
        std::string d = "[";
        if (t.dtype() != ts::VOID) for (int i = 0; i < t.count(); ++i) {
            double v = element(t, i);
            if (scale && (t.dtype() == ts::FLOAT32 || t.dtype() == ts::FLOAT64 || t.dtype() == ts::FLOAT16) && !std::isnan(v) && !std::isinf(v)) { v = std::floor(v * scale + 0.5); if (std::fabs(v) > 1999999999.) v = v > 0 ? 1999999999. : -1999999999.; }
            d += (i ? "," : "") + num(v);
        }
        std::vector<int> s(t.sizes().begin(), t.sizes().end());
        return Raw{J().f("t", dts(t.dtype())).f("s", s).f("d", Raw{d + "]"}).str()};
    }
    inline std::string js(const ts::Tensor &t) { return tj1(t).s; }
    // all fields
    inline std::vector<Raw> tjs(const ts::Tensor &t, double scale = 0) {
        std::vector<Raw> v;
        for (size_t i = 0; i < t.fields_count(); ++i) v.push_back(tj1(t.field(i), scale));
        return v;
    }
    inline ts::Tensor tensor_of(ts::DTYPE dt, const std::vector<int> &shape, const std::vector<int> &d) {
        ts::Shape s; for (int x : shape) s.push_back(x);
        ts::Tensor t(ts::INT32, s);
        for (size_t i = 0; i < d.size(); ++i) t.data<int32_t>()[i] = d[i];
        return dt == ts::INT32 ? t : ts::tensor::cast(dt, t);
    }
    inline int prod(const std::vector<int> &s) { int p = 1; for (int x : s) p *= x; return p; }
    inline ts::Tensor random_tensor(Rng &r, ts::DTYPE dt, const std::vector<int> &s, int lo, int hi) {
        std::vector<int> d(prod(s));
        for (auto &x : d) x = r.in(lo, hi);
        return tensor_of(dt, s, d);
    }
}
#endif
