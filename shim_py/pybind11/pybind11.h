// Offline stand-in for the subset of pybind11 that neo's Python module uses, over the CPython and numpy C API.
// Differences to the real thing, deliberate: arrays created by the module start filled with NaN bytes, so elements
// that are never written are visible.
#pragma once

#include <Python.h>

#ifndef NPY_NO_DEPRECATED_API
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#endif
#include <numpy/arrayobject.h>

#include <complex>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace pybind11 {

using ssize_t = Py_ssize_t;

struct error_already_set : std::exception
{
    auto what() const noexcept -> char const* override { return "python error"; }
};
#define PBSHIM_EXC(name)                                                                                               \
    struct name : std::runtime_error                                                                                   \
    {                                                                                                                  \
        using std::runtime_error::runtime_error;                                                                       \
    };
PBSHIM_EXC(index_error)
PBSHIM_EXC(value_error)
PBSHIM_EXC(type_error)
#undef PBSHIM_EXC

struct handle
{
    handle() = default;
    handle(PyObject* p) : m_ptr(p) {}
    auto ptr() const -> PyObject* { return m_ptr; }
    auto inc_ref() const -> handle const& { Py_XINCREF(m_ptr); return *this; }
    auto dec_ref() const -> handle const& { Py_XDECREF(m_ptr); return *this; }
    explicit operator bool() const { return m_ptr != nullptr; }
    auto is_none() const -> bool { return m_ptr == Py_None; }

protected:
    PyObject* m_ptr{nullptr};
};

struct object : handle
{
    struct borrowed_t {};
    struct stolen_t {};
    object() = default;
    object(handle h, borrowed_t) : handle(h) { inc_ref(); }
    object(handle h, stolen_t) : handle(h) {}
    object(object const& o) : handle(o) { inc_ref(); }
    object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
    auto operator=(object const& o) -> object&
    {
        object c(o);
        std::swap(m_ptr, c.m_ptr);
        return *this;
    }
    auto operator=(object&& o) noexcept -> object&
    {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object() { dec_ref(); }
    auto release() -> handle
    {
        auto* p = m_ptr;
        m_ptr   = nullptr;
        return p;
    }
};

template<typename T>
inline constexpr int npy_type_of = -1;
template<>
inline constexpr int npy_type_of<float> = NPY_FLOAT;
template<>
inline constexpr int npy_type_of<double> = NPY_DOUBLE;
template<>
inline constexpr int npy_type_of<std::complex<float>> = NPY_CFLOAT;
template<>
inline constexpr int npy_type_of<std::complex<double>> = NPY_CDOUBLE;
template<>
inline constexpr int npy_type_of<int> = NPY_INT;
template<>
inline constexpr int npy_type_of<bool> = NPY_BOOL;

struct array : object
{
    enum { c_style = NPY_ARRAY_C_CONTIGUOUS, f_style = NPY_ARRAY_F_CONTIGUOUS, forcecast = NPY_ARRAY_FORCECAST };
    using object::object;
    auto arr() const -> PyArrayObject* { return reinterpret_cast<PyArrayObject*>(m_ptr); }
    auto ndim() const -> ssize_t { return PyArray_NDIM(arr()); }
    auto itemsize() const -> ssize_t { return PyArray_ITEMSIZE(arr()); }
    auto size() const -> ssize_t { return PyArray_SIZE(arr()); }
    auto nbytes() const -> ssize_t { return size() * itemsize(); }
    auto flags() const -> int { return PyArray_FLAGS(arr()); }
    auto writeable() const -> bool { return (flags() & NPY_ARRAY_WRITEABLE) != 0; }
    auto owndata() const -> bool { return (flags() & NPY_ARRAY_OWNDATA) != 0; }
    auto shape() const -> ssize_t const* { return PyArray_DIMS(arr()); }
    auto strides() const -> ssize_t const* { return PyArray_STRIDES(arr()); }
    auto shape(ssize_t i) const -> ssize_t { dim_check(i); return shape()[i]; }
    auto strides(ssize_t i) const -> ssize_t { dim_check(i); return strides()[i]; }

private:
    void dim_check(ssize_t i) const
    {
        if (i < 0 || i >= ndim()) { throw index_error("invalid axis: " + std::to_string(i) + " (ndim = " + std::to_string(ndim()) + ')'); }
    }
};

template<typename T, int Flags = array::forcecast>
struct array_t : array
{
    using value_type = T;
    array_t() : array_t(ssize_t(0)) {}
    array_t(handle h, borrowed_t b) : array(h, b) {}
    array_t(handle h, stolen_t s) : array(h, s) {}
    explicit array_t(ssize_t n) : array_t(std::vector<ssize_t>{n}) {}
    explicit array_t(std::vector<ssize_t> shape)
    {
        m_ptr = PyArray_SimpleNew(static_cast<int>(shape.size()), shape.data(), npy_type_of<T>);
        if (m_ptr == nullptr) { throw error_already_set{}; }
        std::memset(PyArray_DATA(arr()), 0xFF, static_cast<std::size_t>(nbytes()));
    }
    auto mutable_data() -> T*
    {
        if (!writeable()) { throw std::domain_error("array is not writeable"); }
        return static_cast<T*>(PyArray_DATA(arr()));
    }
    auto data() const -> T const* { return static_cast<T const*>(PyArray_DATA(arr())); }
    auto at(ssize_t i) const -> T const& { return *reinterpret_cast<T const*>(PyArray_BYTES(arr()) + i * strides(0)); }
    auto mutable_at(ssize_t i) -> T& { return *reinterpret_cast<T*>(PyArray_BYTES(arr()) + i * strides(0)); }
};

struct gil_scoped_release
{
    gil_scoped_release() : _s(PyEval_SaveThread()) {}
    gil_scoped_release(gil_scoped_release const&) = delete;
    ~gil_scoped_release() { PyEval_RestoreThread(_s); }

private:
    PyThreadState* _s;
};
struct gil_scoped_acquire
{
    gil_scoped_acquire() : _s(PyGILState_Ensure()) {}
    gil_scoped_acquire(gil_scoped_acquire const&) = delete;
    ~gil_scoped_acquire() { PyGILState_Release(_s); }

private:
    PyGILState_STATE _s;
};

struct none {};
struct arg
{
    constexpr explicit arg(char const* n) : name(n) {}
    template<typename T>
    auto operator=(T const&) const -> arg { return *this; }
    auto noconvert(bool = true) -> arg& { return *this; }
    char const* name;
};

namespace shim {

// value <- Python.  load() returns false if this overload does not match.
template<typename T, typename = void>
struct caster;

template<>
struct caster<bool>
{
    static auto load(PyObject* o, bool, bool& v) -> bool { v = o == Py_True; return PyBool_Check(o) != 0; }
    static auto cast(bool v) -> PyObject* { return PyBool_FromLong(v); }
};
template<typename T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>>
{
    static auto load(PyObject* o, bool convert, T& v) -> bool
    {
        if (!convert && !PyFloat_Check(o)) { return false; }
        double const d = PyFloat_AsDouble(o);
        if (d == -1.0 && PyErr_Occurred() != nullptr) { PyErr_Clear(); return false; }
        v = static_cast<T>(d);
        return true;
    }
    static auto cast(T v) -> PyObject* { return PyFloat_FromDouble(static_cast<double>(v)); }
};
template<typename T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
{
    static auto load(PyObject* o, bool convert, T& v) -> bool
    {
        if (PyFloat_Check(o)) { return false; }
        if (!convert && !PyLong_Check(o) && !PyIndex_Check(o)) { return false; }
        auto* n = PyNumber_Index(o);
        if (n == nullptr) { PyErr_Clear(); return false; }
        bool ok = true;
        if constexpr (std::is_unsigned_v<T>) {
            auto const x = PyLong_AsUnsignedLongLong(n);
            ok           = !(x == static_cast<unsigned long long>(-1) && PyErr_Occurred() != nullptr) && static_cast<T>(x) == x;
            v            = static_cast<T>(x);
        } else {
            auto const x = PyLong_AsLongLong(n);
            ok           = !(x == -1 && PyErr_Occurred() != nullptr) && static_cast<T>(x) == x;
            v            = static_cast<T>(x);
        }
        PyErr_Clear();
        Py_DECREF(n);
        return ok;
    }
    static auto cast(T v) -> PyObject* { return std::is_unsigned_v<T> ? PyLong_FromUnsignedLongLong(v) : PyLong_FromLongLong(v); }
};
template<typename T>
struct caster<T, std::enable_if_t<std::is_enum_v<T>>>
{
    static auto load(PyObject* o, bool, T& v) -> bool
    {
        if (!PyLong_Check(o)) { return false; }
        v = static_cast<T>(PyLong_AsLongLong(o));
        return true;
    }
    static auto cast(T v) -> PyObject* { return PyLong_FromLongLong(static_cast<long long>(v)); }
};
template<typename T>
struct caster<std::optional<T>>
{
    static auto load(PyObject* o, bool convert, std::optional<T>& v) -> bool
    {
        if (o == Py_None) { v.reset(); return true; }
        T x{};
        if (!caster<T>::load(o, convert, x)) { return false; }
        v = x;
        return true;
    }
    static auto cast(std::optional<T> const& v) -> PyObject* { return v ? caster<T>::cast(*v) : Py_NewRef(Py_None); }
};
template<>
struct caster<std::string>
{
    static auto load(PyObject* o, bool, std::string& v) -> bool
    {
        if (!PyUnicode_Check(o)) { return false; }
        v = PyUnicode_AsUTF8(o);
        return true;
    }
    static auto cast(std::string const& v) -> PyObject* { return PyUnicode_FromString(v.c_str()); }
};
template<typename T, int Flags>
struct caster<array_t<T, Flags>>
{
    static auto load(PyObject* o, bool convert, array_t<T, Flags>& v) -> bool
    {
        if (!convert) {
            if (!PyArray_Check(o)) { return false; }
            auto* a = reinterpret_cast<PyArrayObject*>(o);
            if (PyArray_TYPE(a) != npy_type_of<T> || PyArray_ISBYTESWAPPED(a)) { return false; }
            if ((PyArray_FLAGS(a) & Flags & (array::c_style | array::f_style)) != (Flags & (array::c_style | array::f_style))) { return false; }
        }
        auto* r = PyArray_FromAny(o, PyArray_DescrFromType(npy_type_of<T>), 0, 0, NPY_ARRAY_ENSUREARRAY | Flags, nullptr);
        if (r == nullptr) { PyErr_Clear(); return false; }
        v = array_t<T, Flags>(r, object::stolen_t{});
        return true;
    }
    static auto cast(array_t<T, Flags> const& v) -> PyObject* { return Py_NewRef(v.ptr()); }
};
template<>
struct caster<object>
{
    static auto load(PyObject* o, bool, object& v) -> bool { v = object(o, object::borrowed_t{}); return true; }
    static auto cast(object const& v) -> PyObject* { return Py_NewRef(v.ptr()); }
};

template<typename F>
struct sig : sig<decltype(&F::operator())> {};
template<typename R, typename... A>
struct sig<R (*)(A...)> { using type = R(A...); };
template<typename R, typename... A>
struct sig<R (*)(A...) noexcept> { using type = R(A...); };
template<typename C, typename R, typename... A>
struct sig<R (C::*)(A...) const> { using type = R(A...); };
template<typename C, typename R, typename... A>
struct sig<R (C::*)(A...)> { using type = R(A...); };
template<typename C, typename R, typename... A>
struct sig<R (C::*)(A...) const noexcept> { using type = R(A...); };

using overload = std::function<bool(PyObject*, bool, PyObject**)>;

template<typename F, typename R, typename... A>
auto make_overload(F f, R (*)(A...)) -> overload
{
    return [f](PyObject* args, bool convert, PyObject** result) -> bool {
        if (static_cast<std::size_t>(PyTuple_Size(args)) != sizeof...(A)) { return false; }
        std::tuple<std::decay_t<A>...> v;
        bool const ok = [&]<std::size_t... I>(std::index_sequence<I...>) {
            return (caster<std::decay_t<A>>::load(PyTuple_GetItem(args, static_cast<Py_ssize_t>(I)), convert, std::get<I>(v)) and ...);
        }(std::index_sequence_for<A...>{});
        if (!ok) { return false; }
        if constexpr (std::is_void_v<R>) {
            std::apply(f, v);
            *result = Py_NewRef(Py_None);
        } else {
            *result = caster<std::decay_t<R>>::cast(std::apply(f, v));
        }
        return true;
    };
}

struct record
{
    std::string name;
    std::vector<overload> overloads;
    PyMethodDef def{};
};

inline auto dispatch(PyObject* self, PyObject* args) -> PyObject*
{
    auto* rec = static_cast<record*>(PyCapsule_GetPointer(self, "neo.shim"));
    try {
        for (bool convert : {false, true}) {
            for (auto& o : rec->overloads) {
                PyObject* r = nullptr;
                if (o(args, convert, &r)) { return r; }
            }
        }
        PyErr_SetString(PyExc_TypeError, "incompatible function arguments");
    } catch (error_already_set const&) {
    } catch (index_error const& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (value_error const& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (type_error const& e) {
        PyErr_SetString(PyExc_TypeError, e.what());
    } catch (std::bad_alloc const& e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (std::domain_error const& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (std::invalid_argument const& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (std::length_error const& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (std::out_of_range const& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (std::exception const& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    }
    return nullptr;
}

struct attr_proxy
{
    PyObject* obj;
    std::string name;
    template<typename T>
    void operator=(T const& v)
    {
        PyObject* p = nullptr;
        if constexpr (std::is_convertible_v<T, char const*>) {
            p = PyUnicode_FromString(v);
        } else {
            p = caster<std::decay_t<T>>::cast(v);
        }
        PyObject_SetAttrString(obj, name.c_str(), p);
        Py_DECREF(p);
    }
};
}  // namespace shim

struct module_ : handle
{
    explicit module_(PyObject* m) : handle(m) {}
    template<typename F, typename... Extra>
    auto def(char const* name, F f, Extra const&...) -> module_&
    {
        using S   = typename shim::sig<F>::type;
        auto& rec = records()[name];
        if (!rec) {
            rec       = std::make_unique<shim::record>();
            rec->name = name;
            rec->def  = {rec->name.c_str(), &shim::dispatch, METH_VARARGS, nullptr};
            auto* cap = PyCapsule_New(rec.get(), "neo.shim", nullptr);
            auto* fn  = PyCFunction_New(&rec->def, cap);
            PyObject_SetAttrString(ptr(), name, fn);
            Py_DECREF(fn);
            Py_DECREF(cap);
        }
        rec->overloads.push_back(shim::make_overload(f, static_cast<S*>(nullptr)));
        return *this;
    }
    auto attr(char const* name) const -> shim::attr_proxy { return {ptr(), name}; }
    auto doc() const -> shim::attr_proxy { return {ptr(), "__doc__"}; }

private:
    static auto records() -> std::map<std::string, std::unique_ptr<shim::record>>&
    {
        static std::map<std::string, std::unique_ptr<shim::record>> r;
        return r;
    }
};
using module = module_;

template<typename E>
struct enum_
{
    template<typename... Extra>
    enum_(module_& m, char const* name, Extra const&...)
    {
        auto* types = PyImport_ImportModule("types");
        _ns         = PyObject_CallMethod(types, "SimpleNamespace", nullptr);
        Py_DECREF(types);
        PyObject_SetAttrString(m.ptr(), name, _ns);
    }
    auto value(char const* name, E v, char const* = nullptr) -> enum_&
    {
        auto* p = shim::caster<E>::cast(v);
        PyObject_SetAttrString(_ns, name, p);
        Py_DECREF(p);
        return *this;
    }
    auto export_values() -> enum_& { return *this; }

private:
    PyObject* _ns;
};

namespace shim {
template<typename F, typename R, typename A>
auto vectorize1(F f, R (*)(A))
{
    using In  = std::decay_t<A>;
    using Out = std::decay_t<R>;
    return [f](array_t<In, array::forcecast> in) -> object {
        std::vector<ssize_t> shape(in.shape(), in.shape() + in.ndim());
        if (shape.empty()) { return object(caster<Out>::cast(f(*in.data())), object::stolen_t{}); }
        array_t<Out> out(shape);
        std::vector<ssize_t> at(shape.size(), 0);
        auto const n = in.size();
        auto* o      = out.mutable_data();
        for (ssize_t k = 0; k < n; ++k) {
            auto const* p = PyArray_BYTES(in.arr());
            for (std::size_t d = 0; d < at.size(); ++d) { p += at[d] * in.strides()[d]; }
            o[k] = f(*reinterpret_cast<In const*>(p));
            for (std::size_t d = at.size(); d-- > 0;) {
                if (++at[d] < shape[d]) { break; }
                at[d] = 0;
            }
        }
        return out;
    };
}
}  // namespace shim

template<typename F>
auto vectorize(F f)
{
    using S = typename shim::sig<std::decay_t<F>>::type;
    return shim::vectorize1(f, static_cast<S*>(nullptr));
}

}  // namespace pybind11

#define PYBIND11_MODULE(name, var, ...)                                                                                \
    static void pbshim_init_##name(::pybind11::module_&);                                                              \
    extern "C" PyObject* PyInit_##name()                                                                               \
    {                                                                                                                  \
        static PyModuleDef def{PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        auto* m = PyModule_Create(&def);                                                                               \
        ::pybind11::module_ mod(m);                                                                                    \
        pbshim_init_##name(mod);                                                                                       \
        return m;                                                                                                      \
    }                                                                                                                  \
    static void pbshim_init_##name(::pybind11::module_& var)
