// The Python package, end to end: the real Python files and the real extension source (over a stand-in for pybind11)
// in an embedded interpreter with numpy.
#include <Python.h>
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>

#include "common.hpp"

extern "C" PyObject* PyInit__neo();

namespace {
PyObject* neo_mod = nullptr;
PyObject* fft_mod = nullptr;

struct Interp
{
    Interp()
    {
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        setenv("OMP_NUM_THREADS", "1", 1);
        PyConfig c;
        PyConfig_InitIsolatedConfig(&c);
        c.write_bytecode          = 0;
        c.install_signal_handlers = 0;
        c.use_environment         = 0;
        PyConfig_SetBytesString(&c, &c.program_name, PY_EXE);
        Py_InitializeFromConfig(&c);
        PyConfig_Clear(&c);
        auto* path = PySys_GetObject("path");
        for (char const* p : {PY_SITE, NEO_PY}) {
            auto* s = PyUnicode_FromString(p);
            PyList_Insert(path, 0, s);
            Py_DECREF(s);
        }
        if (_import_array() < 0) { die(); }
        auto* m = PyInit__neo();
        if (m == nullptr) { die(); }
        PyDict_SetItemString(PyImport_GetModuleDict(), "neo._neo", m);
        neo_mod = PyImport_ImportModule("neo");
        fft_mod = PyImport_ImportModule("neo.fft");
        if (neo_mod == nullptr || fft_mod == nullptr) { die(); }
    }
    static void die()
    {
        PyErr_Print();
        std::fprintf(stderr, "python could not be started\n");
        std::_Exit(2);
    }
} interp;

template<typename T>
constexpr int npy()
{
    if constexpr (std::is_same_v<T, float>) { return NPY_FLOAT; }
    if constexpr (std::is_same_v<T, double>) { return NPY_DOUBLE; }
    if constexpr (std::is_same_v<T, std::complex<float>>) { return NPY_CFLOAT; }
    return NPY_CDOUBLE;
}

struct Ref
{
    PyObject* p{nullptr};
    Ref() = default;
    explicit Ref(PyObject* q) : p(q) {}
    Ref(Ref&& o) noexcept : p(std::exchange(o.p, nullptr)) {}
    Ref& operator=(Ref&& o) noexcept { std::swap(p, o.p); return *this; }
    ~Ref() { Py_XDECREF(p); }
};

// A numpy array over guarded memory: any element stride (also negative), optionally a row or column of a matrix
template<typename T>
struct Arr
{
    std::vector<T> before;
    std::vector<T> mem;
    Ref obj;
    char const* form{"contiguous"};

    Arr(Src& s, std::vector<T> const& v)
    {
        auto const n = v.size();
        std::ptrdiff_t step = 1;
        switch (s.below(6)) {
            case 0:
            case 1: break;
            case 2: step = 2; form = "x[::2]"; break;
            case 3: step = 3; form = "x[::3]"; break;
            case 4: step = -1; form = "x[::-1]"; break;
            default: step = -2; form = "x[::-2]"; break;
        }
        auto const a = static_cast<std::size_t>(step < 0 ? -step : step);
        mem.assign(n == 0 ? 1 : (n - 1) * a + 1, Buf<T>::sentinel());
        std::size_t const first = step < 0 ? mem.size() - 1 : 0;
        for (std::size_t i = 0; i < n; ++i) { mem[static_cast<std::size_t>(static_cast<std::ptrdiff_t>(first) + step * static_cast<std::ptrdiff_t>(i))] = v[i]; }
        before            = mem;
        npy_intp dims[1]  = {static_cast<npy_intp>(n)};
        npy_intp strs[1]  = {static_cast<npy_intp>(step * static_cast<std::ptrdiff_t>(sizeof(T)))};
        obj               = Ref(PyArray_New(&PyArray_Type, 1, dims, npy<T>(), strs, mem.data() + first, 0, NPY_ARRAY_WRITEABLE, nullptr));
        PyArray_UpdateFlags(reinterpret_cast<PyArrayObject*>(obj.p), NPY_ARRAY_UPDATE_ALL);
    }
    void unchanged(char const* what) const { require_same(before, mem, what); }
};

// N-dimensional C-ordered array holding v
template<typename T>
Ref nd_array(std::vector<T>& v, std::vector<npy_intp> dims)
{
    Ref r(PyArray_New(&PyArray_Type, static_cast<int>(dims.size()), dims.data(), npy<T>(), nullptr, v.data(), 0, NPY_ARRAY_WRITEABLE, nullptr));
    PyArray_UpdateFlags(reinterpret_cast<PyArrayObject*>(r.p), NPY_ARRAY_UPDATE_ALL);
    return r;
}

std::string python_error()
{
    PyObject *t, *v, *tb;
    PyErr_Fetch(&t, &v, &tb);
    std::string r = t != nullptr ? reinterpret_cast<PyTypeObject*>(t)->tp_name : "no error";
    if (v != nullptr) {
        Ref s(PyObject_Str(v));
        if (s.p != nullptr) { r += std::string(": ") + PyUnicode_AsUTF8(s.p); }
    }
    Py_XDECREF(t);
    Py_XDECREF(v);
    Py_XDECREF(tb);
    PyErr_Clear();
    return r;
}

// calls module.function(args, **kwargs); kwargs may be null
Ref call(PyObject* mod, char const* name, std::vector<PyObject*> const& args, std::vector<std::pair<char const*, PyObject*>> const& kw = {})
{
    Ref f(PyObject_GetAttrString(mod, name));
    if (f.p == nullptr) { PBT_FAIL("neo has no %s: %s", name, python_error().c_str()); }
    Ref a(PyTuple_New(static_cast<Py_ssize_t>(args.size())));
    for (std::size_t i = 0; i < args.size(); ++i) { PyTuple_SetItem(a.p, static_cast<Py_ssize_t>(i), Py_NewRef(args[i])); }
    Ref k(PyDict_New());
    for (auto const& [n, v] : kw) { PyDict_SetItemString(k.p, n, v); }
    return Ref(PyObject_Call(f.p, a.p, k.p));
}

template<typename T>
std::vector<T> values(Ref const& r, std::vector<npy_intp> const& shape, char const* what)
{
    if (r.p == nullptr) { PBT_FAIL("%s raised %s", what, python_error().c_str()); }
    PBT_REQUIRE(PyArray_Check(r.p), "%s did not return an array", what);
    auto* a = reinterpret_cast<PyArrayObject*>(r.p);
    PBT_REQUIRE(PyArray_TYPE(a) == npy<T>(), "%s returned another element type (numpy type %d)", what, PyArray_TYPE(a));
    PBT_REQUIRE(static_cast<std::size_t>(PyArray_NDIM(a)) == shape.size(), "%s returned %d dimensions", what, PyArray_NDIM(a));
    for (std::size_t i = 0; i < shape.size(); ++i) {
        PBT_REQUIRE(PyArray_DIM(a, int(i)) == shape[i], "%s: extent %zu is %zd instead of %zd", what, i, ssize_t(PyArray_DIM(a, int(i))), ssize_t(shape[i]));
    }
    Ref c(PyArray_FromArray(a, PyArray_DescrFromType(npy<T>()), NPY_ARRAY_CARRAY));
    auto* p = static_cast<T*>(PyArray_DATA(reinterpret_cast<PyArrayObject*>(c.p)));
    return std::vector<T>(p, p + PyArray_SIZE(a));
}
void raises(Ref const& r, char const* what)
{
    PBT_REQUIRE(r.p == nullptr, "%s was accepted", what);
    PBT_REQUIRE(PyErr_ExceptionMatches(PyExc_RuntimeError), "%s raised %s instead of a RuntimeError", what, python_error().c_str());
    PyErr_Clear();
}

template<typename T>
void transform(Src& s)
{
    auto const len     = s.chance(1, 4) ? s.len(1, 70) : std::size_t(1) << s.size(0, 9);
    char const* kind   = "";
    auto const v       = gen_vec<T>(s, len, &kind);
    bool const forward = s.flag();
    int const norm     = static_cast<int>(s.below(4));  // 3: argument left out
    auto const nmode   = s.below(4);                    // 0, 1: left out; 2: a power of two; 3: any
    std::size_t n      = nmode == 2 ? std::size_t(1) << s.size(0, 9) : nmode == 3 ? s.len(0, 80) : len;
    static char const* const norms[] = {"backward", "ortho", "forward", "backward"};
    char const* const fn             = forward ? "fft" : "ifft";
    Arr<T> x(s, v);
    s.note(fmt("neo.fft.%s(%s %s of %zu, n=%s, norm=%s)", fn, type_name<T>(), x.form, len, nmode < 2 ? "None" : std::to_string(n).c_str(), norm == 3 ? "default" : norms[norm]));
    s.label(nmode < 2 ? "n left out" : n < len ? "cropped" : n > len ? "padded" : "n = len");
    Ref pn(nmode < 2 ? Py_NewRef(Py_None) : PyLong_FromSize_t(n));
    Ref pnorm(PyUnicode_FromString(norms[norm]));
    std::vector<PyObject*> args{x.obj.p};
    std::vector<std::pair<char const*, PyObject*>> kw;
    if (s.flag()) {
        if (nmode >= 2) { kw.emplace_back("n", pn.p); }
        if (norm < 3) { kw.emplace_back("norm", pnorm.p); }
    } else if (norm < 3) {
        args = {x.obj.p, pn.p, pnorm.p};
    } else if (nmode >= 2) {
        args = {x.obj.p, pn.p};
    }
    auto const r = call(fft_mod, fn, args, kw);
    x.unchanged("the array passed in was changed");
    if (n == 0 || (n & (n - 1)) != 0) {
        s.label("size refused");
        s.nontrivial();
        raises(r, "a size that is not a power of two");
        return;
    }
    s.nontrivial(n >= 4);
    auto const got = values<T>(r, {static_cast<npy_intp>(n)}, fn);
    auto in        = v;
    in.resize(n);
    auto want          = oracle::dft(cx_of(in), forward ? -1 : 1);
    long double factor = 1;
    if (std::strcmp(norms[norm], "ortho") == 0) { factor = 1 / std::sqrt(static_cast<long double>(n)); }
    if (std::strcmp(norms[norm], forward ? "forward" : "backward") == 0) { factor = 1.0L / static_cast<long double>(n); }
    for (auto& w : want) { w = {w.re * factor, w.im * factor}; }
    require_close_l2(got, want, 30 * eps<T>() * (1 + std::log2(static_cast<long double>(n))) * oracle::norm(want) + 1e-30L, fn);
}

// more than one dimension, or none
template<typename T>
void rank(Src& s)
{
    auto const dims = s.pick({0, 2, 3});
    std::vector<npy_intp> shape;
    std::size_t total = 1;
    for (int i = 0; i < dims; ++i) {
        shape.push_back(static_cast<npy_intp>(std::size_t(1) << s.size(0, 4)));
        total *= static_cast<std::size_t>(shape.back());
    }
    s.nontrivial();
    if constexpr (is_cx<T>) {
        std::vector<T> v(total, T(1));
        auto const a = nd_array(v, shape);
        s.note(fmt("fft of a %d-dimensional array", dims));
        raises(call(fft_mod, s.flag() ? "fft" : "ifft", {a.p}), "an array that is not one-dimensional");
    } else {
        std::vector<T> v(total, T(1));
        std::vector<T> w(s.size(2, 9), T(1));
        auto const a = nd_array(v, shape);
        auto const b = nd_array(w, {static_cast<npy_intp>(w.size())});
        bool const first = s.flag();
        Ref m(PyUnicode_FromString(s.pick({"fft", "direct"})));
        s.note(fmt("convolve with a %d-dimensional %s argument", dims, first ? "first" : "second"));
        raises(call(neo_mod, "convolve", first ? std::vector<PyObject*>{a.p, b.p} : std::vector<PyObject*>{b.p, a.p}, {{"method", m.p}}), "an array that is not one-dimensional");
    }
}

template<typename T>
void convolve(Src& s)
{
    auto const n   = s.len(1, 150);
    auto const m   = s.len(1, 150);
    auto const a   = gen_vec<T>(s, n);
    auto const b   = gen_vec<T>(s, m);
    auto const how = s.below(4);  // left out, auto, direct, fft
    static char const* const methods[] = {"", "auto", "direct", "fft"};
    auto const mode = s.below(5);  // 0, 1, 2 full; 3 valid; 4 same
    char const* const modes[] = {"", "full", "full", "valid", "same"};
    Arr<T> x(s, a);
    Arr<T> y(s, b);
    s.note(fmt("neo.convolve(%s %s of %zu, %s of %zu, mode=%s, method=%s)", type_name<T>(), x.form, n, y.form, m, modes[mode], methods[how]));
    s.label(how == 3 ? "fft" : "direct");
    Ref pm(PyUnicode_FromString(modes[mode]));
    Ref ph(PyUnicode_FromString(methods[how]));
    std::vector<std::pair<char const*, PyObject*>> kw;
    if (mode != 0) { kw.emplace_back("mode", pm.p); }
    if (how != 0) { kw.emplace_back("method", ph.p); }
    if (how == 3 && (n < 2 || m < 2)) { return; }  // the FFT convolver wants at least two elements
    auto const r = call(neo_mod, "convolve", {x.obj.p, y.obj.p}, kw);
    x.unchanged("the first array was changed");
    y.unchanged("the second array was changed");
    s.nontrivial(n >= 2 && m >= 2);
    if (mode >= 3) {
        raises(r, "an unsupported mode");
        return;
    }
    auto const got  = values<T>(r, {static_cast<npy_intp>(n + m - 1)}, "convolve");
    auto const want = oracle::convolve(ld_of(a), ld_of(b));
    auto const tol  = 40 * eps<T>() * (1 + std::log2(static_cast<long double>(n + m))) * oracle::norm(ld_of(a)) * oracle::norm(ld_of(b)) + 1e-30L;
    require_close_each(got, want, tol, "convolve");
}

// element-wise functions on arrays of any shape and memory order
template<typename T>
void elementwise(Src& s)
{
    auto const what = s.below(5);
    static char const* const names[] = {"amplitude_to_db", "amplitude_to_db estimate", "a_weighting", "fast_log2", "fast_log10"};
    auto const dims = s.size(1, 3);
    std::vector<npy_intp> shape;
    std::size_t total = 1;
    for (std::size_t i = 0; i < dims; ++i) {
        shape.push_back(static_cast<npy_intp>(s.size(1, dims == 1 ? 40 : 5)));
        total *= static_cast<std::size_t>(shape.back());
    }
    std::vector<T> v(total);
    for (auto& e : v) {
        e = static_cast<T>(static_cast<float>(s.flag() ? std::exp2(double(s.range(-400, 260)) / 20.0) : double(s.range(1, 40000)) / 8.0));
    }
    auto const keep = v;
    auto a          = nd_array(v, shape);
    bool const turn = s.flag();
    if (turn) { a = Ref(PyArray_Transpose(reinterpret_cast<PyArrayObject*>(a.p), nullptr)); }
    auto* arr = reinterpret_cast<PyArrayObject*>(a.p);
    std::vector<npy_intp> const shp(PyArray_DIMS(arr), PyArray_DIMS(arr) + dims);
    Ref flat(PyArray_FromArray(arr, PyArray_DescrFromType(npy<T>()), NPY_ARRAY_CARRAY | NPY_ARRAY_ENSURECOPY));
    auto const* in = static_cast<T const*>(PyArray_DATA(reinterpret_cast<PyArrayObject*>(flat.p)));
    s.note(fmt("%s of %zu %s in %zu dimensions%s", names[what], total, type_name<T>(), dims, turn ? ", transposed" : ""));
    s.label(names[what]);
    s.nontrivial(total > 1);
    Ref est(PyUnicode_FromString("estimate"));
    Ref acc(PyUnicode_FromString("accurate"));
    auto const r = what == 0 ? (s.flag() ? call(neo_mod, "amplitude_to_db", {a.p}) : call(neo_mod, "amplitude_to_db", {a.p, acc.p}))
                 : what == 1 ? call(neo_mod, "amplitude_to_db", {a.p}, {{"precision", est.p}})
                             : call(neo_mod, names[what], {a.p});
    require_same(keep, v, "the array passed in was changed");
    auto check = [&](auto const& got, long double tol) {
        for (std::size_t i = 0; i < total; ++i) {
            long double const x = in[i], q = x * x;
            auto sq             = [](long double t) { return t * t; };
            long double want    = 0;
            switch (what) {
                case 0:
                case 1: want = std::max(-144.0L, 20 * std::log10(x)); break;
                case 2:
                    want = 2.0L + 20.0L * std::log10(sq(12194.217L) * q * q / ((q + sq(20.598997L)) * std::sqrt((q + sq(107.65265L)) * (q + sq(737.86223L))) * (q + sq(12194.217L))));
                    break;
                case 3: want = std::log2(x); break;
                default: want = std::log10(x); break;
            }
            if (what == 2 && x < 0.02L) { continue; }  // very low frequencies lose precision
            auto const t = tol * (what == 0 || what == 2 ? 1 + std::fabs(want) : 1);
            require_close(got[i], want, t, names[what]);
        }
    };
    if (what >= 3) {
        check(values<float>(r, shp, names[what]), 0.001L);
    } else {
        check(values<T>(r, shp, names[what]), what == 1 ? 0.01L : what == 2 ? (sizeof(T) == 4 ? 1e-3L : 1e-6L) : 40 * eps<T>());
    }
}

void frequencies(Src& s)
{
    auto const n  = s.len(1, 2000);
    bool const dd = s.flag();
    double const d = dd ? 1.0 : 1.0 / double(s.range(1, 192000));
    s.note(fmt("neo.fft.rfftfreq(%zu, %.9g)", n, d));
    s.nontrivial(n > 1);
    Ref pn(PyLong_FromSize_t(n));
    Ref pd(PyFloat_FromDouble(d));
    auto const r   = dd ? call(fft_mod, "rfftfreq", {pn.p}) : s.flag() ? call(fft_mod, "rfftfreq", {pn.p, pd.p}) : call(fft_mod, "rfftfreq", {pn.p}, {{"d", pd.p}});
    auto const got = values<double>(r, {static_cast<npy_intp>(n)}, "rfftfreq");
    for (std::size_t i = 0; i < n; ++i) {
        long double const want = static_cast<long double>(i) / (static_cast<long double>(n) * d);
        require_close(got[i], want, 8 * eps<double>() * want, "rfftfreq");
    }
}
}  // namespace
PBT_CHECK_T(t1, "fft_complex64", 6000, 60000, transform<std::complex<float>>)
PBT_CHECK_T(t2, "fft_complex128", 6000, 60000, transform<std::complex<double>>)
PBT_CHECK_T(r1, "rank_complex64", 200, 2000, rank<std::complex<float>>)
PBT_CHECK_T(r2, "rank_complex128", 200, 2000, rank<std::complex<double>>)
PBT_CHECK_T(r3, "rank_float", 200, 2000, rank<float>)
PBT_CHECK_T(r4, "rank_double", 200, 2000, rank<double>)
PBT_CHECK_T(c1, "convolve_float", 6000, 60000, convolve<float>)
PBT_CHECK_T(c2, "convolve_double", 6000, 60000, convolve<double>)
PBT_CHECK_T(e1, "elementwise_float", 4000, 40000, elementwise<float>)
PBT_CHECK_T(e2, "elementwise_double", 4000, 40000, elementwise<double>)
PBT_CHECK_T(f1, "rfftfreq", 2000, 20000, frequencies)
