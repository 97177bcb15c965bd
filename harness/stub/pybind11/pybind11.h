// A small stand-in for pybind11 (whose sources are a submodule that is not present here), written over
// CPython's and NumPy's own C interfaces: enough of pybind11's documented behaviour (argument conversion,
// overloads, keyword and default arguments, exception translation, array_t views and conversions) for
// /repo's binding files to be compiled unchanged and used from Python.
#ifndef VERIF_STUB_PYBIND11_H
#define VERIF_STUB_PYBIND11_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define PYBIND11_NAMESPACE pybind11

namespace pybind11 {

using ssize_t = Py_ssize_t;
using size_t = std::size_t;

class handle;
class object;
class str;
class tuple;
class dict;
template <class T>
object cast(T&& v);

struct return_value_policy_t {};
enum class return_value_policy : uint8_t { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

// ------------------------------------------------------------------------------------------- errors

class error_already_set : public std::exception {
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    std::string msg;

   public:
    error_already_set() {
        PyErr_Fetch(&t, &v, &b);
        PyErr_NormalizeException(&t, &v, &b);
        msg = "python error";
        if (v) {
            PyObject* s = PyObject_Str(v);
            if (s) {
                const char* c = PyUnicode_AsUTF8(s);
                if (c)
                    msg = c;
                Py_DECREF(s);
            }
            PyErr_Clear();
        }
    }
    error_already_set(const error_already_set& o) : t(o.t), v(o.v), b(o.b), msg(o.msg) {
        Py_XINCREF(t);
        Py_XINCREF(v);
        Py_XINCREF(b);
    }
    ~error_already_set() {
        Py_XDECREF(t);
        Py_XDECREF(v);
        Py_XDECREF(b);
    }
    const char* what() const noexcept override { return msg.c_str(); }
    void restore() {
        Py_XINCREF(t);
        Py_XINCREF(v);
        Py_XINCREF(b);
        PyErr_Restore(t, v, b);
    }
    bool matches(PyObject* exc) const { return PyErr_GivenExceptionMatches(t, exc); }
};

class builtin_exception : public std::runtime_error {
   public:
    using std::runtime_error::runtime_error;
    virtual void set_error() const = 0;
};
#define VERIF_PYB_EXC(name, py)                                                  \
    class name : public builtin_exception {                                      \
       public:                                                                   \
        using builtin_exception::builtin_exception;                              \
        name() : name("") {}                                                     \
        void set_error() const override { PyErr_SetString(py, what()); }         \
    };
VERIF_PYB_EXC(stop_iteration, PyExc_StopIteration)
VERIF_PYB_EXC(index_error, PyExc_IndexError)
VERIF_PYB_EXC(key_error, PyExc_KeyError)
VERIF_PYB_EXC(value_error, PyExc_ValueError)
VERIF_PYB_EXC(type_error, PyExc_TypeError)
VERIF_PYB_EXC(buffer_error, PyExc_BufferError)
VERIF_PYB_EXC(import_error, PyExc_ImportError)
VERIF_PYB_EXC(attribute_error, PyExc_AttributeError)
VERIF_PYB_EXC(cast_error, PyExc_RuntimeError)
VERIF_PYB_EXC(reference_cast_error, PyExc_RuntimeError)

struct next_overload {};  // an argument did not convert

inline std::vector<void (*)(std::exception_ptr)>& translators();
inline void translate_exception() {
    std::exception_ptr now = std::current_exception();
    for (auto* t : translators()) {
        try {
            t(now);
            return;
        } catch (...) {
            now = std::current_exception();
        }
    }
    try {
        throw;
    } catch (error_already_set& e) {
        e.restore();
    } catch (const builtin_exception& e) {
        e.set_error();
    } catch (const std::bad_alloc& e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range& e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error& e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error& e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception& e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
}

inline void pybind11_fail(const std::string& s) { throw std::runtime_error(s); }

// ------------------------------------------------------------------------------------------- objects

struct obj_accessor;
class py_iterator;

template <class D>
class object_api {
    PyObject* p() const;

   public:
    obj_accessor attr(const char* name) const;
    obj_accessor attr(const std::string& name) const;
    obj_accessor operator[](const char* key) const;
    obj_accessor operator[](handle key) const;
    template <class I, class = std::enable_if_t<std::is_integral_v<I>>>
    obj_accessor operator[](I idx) const;
    template <class... A>
    object operator()(A&&... a) const;
    bool is(const handle& o) const;
    bool is_none() const { return p() == Py_None; }
    template <class T>
    bool contains(T&& item) const;
    bool equal(const handle& o) const;
    py_iterator begin() const;
    py_iterator end() const;
    object get_type() const;
};

class handle : public object_api<handle> {
   protected:
    PyObject* m_ptr = nullptr;

   public:
    handle() = default;
    handle(PyObject* p) : m_ptr(p) {}
    PyObject* ptr() const { return m_ptr; }
    PyObject*& ptr() { return m_ptr; }
    const handle& inc_ref() const {
        Py_XINCREF(m_ptr);
        return *this;
    }
    const handle& dec_ref() const {
        Py_XDECREF(m_ptr);
        return *this;
    }
    explicit operator bool() const { return m_ptr != nullptr; }
    bool operator==(const handle& o) const { return m_ptr == o.m_ptr; }
    bool operator!=(const handle& o) const { return m_ptr != o.m_ptr; }
    template <class T>
    T cast() const;
};

struct borrowed_t {};
struct stolen_t {};

class object : public handle {
   public:
    object() = default;
    object(handle h, borrowed_t) : handle(h) { inc_ref(); }
    object(handle h, stolen_t) : handle(h) {}
    object(const object& o) : handle(o) { inc_ref(); }
    object(object&& o) noexcept : handle(o) { o.m_ptr = nullptr; }
    ~object() { dec_ref(); }
    object& operator=(const object& o) {
        o.inc_ref();
        dec_ref();
        m_ptr = o.m_ptr;
        return *this;
    }
    object& operator=(object&& o) noexcept {
        if (this != &o) {
            PyObject* t = m_ptr;
            m_ptr = o.m_ptr;
            o.m_ptr = nullptr;
            Py_XDECREF(t);
        }
        return *this;
    }
    handle release() {
        PyObject* t = m_ptr;
        m_ptr = nullptr;
        return handle(t);
    }
    template <class T>
    T cast() const {
        return handle::cast<T>();
    }
};

template <class T>
T reinterpret_borrow(handle h) {
    return T(h, borrowed_t{});
}
template <class T>
T reinterpret_steal(handle h) {
    return T(h, stolen_t{});
}
inline object steal_checked(PyObject* p) {
    if (!p)
        throw error_already_set();
    return reinterpret_steal<object>(p);
}

struct obj_accessor : public object_api<obj_accessor> {
    object o, key;
    bool is_attr;
    mutable object cache;
    obj_accessor(object o_, object k, bool a) : o(std::move(o_)), key(std::move(k)), is_attr(a) {}
    obj_accessor(const obj_accessor&) = default;
    obj_accessor(obj_accessor&&) = default;
    object& get() const {
        if (!cache)
            cache = steal_checked(is_attr ? PyObject_GetAttr(o.ptr(), key.ptr()) : PyObject_GetItem(o.ptr(), key.ptr()));
        return cache;
    }
    operator object() const { return get(); }
    PyObject* ptr() const { return get().ptr(); }
    template <class T>
    T cast() const {
        return get().template cast<T>();
    }
    void set(const object& v) const {
        int r = is_attr ? PyObject_SetAttr(o.ptr(), key.ptr(), v.ptr()) : PyObject_SetItem(o.ptr(), key.ptr(), v.ptr());
        if (r != 0)
            throw error_already_set();
        cache = object();
    }
    template <class T>
    void operator=(T&& v) const {
        set(pybind11::cast(std::forward<T>(v)));
    }
    void operator=(const obj_accessor& v) const { set(v.get()); }
};

template <class T>
constexpr bool is_pyobj = std::is_base_of_v<handle, std::decay_t<T>>;

#define VERIF_PYB_OBJECT(Name, Parent, check, convert)                                                     \
   public:                                                                                                 \
    Name(handle h, borrowed_t) : Parent(h, borrowed_t{}) {}                                                \
    Name(handle h, stolen_t) : Parent(h, stolen_t{}) {}                                                    \
    static bool check_(handle h) { return h.ptr() && check(h.ptr()); }                                     \
    Name(const object& o) : Parent(check_(o) ? o : steal_checked(convert(o.ptr()))) {}                     \
    Name(object&& o) : Parent(check_(o) ? std::move(o) : steal_checked(convert(o.ptr()))) {}               \
    Name(const obj_accessor& a) : Name(a.get()) {}

inline PyObject* verif_noconv(PyObject* o) {
    PyErr_Format(PyExc_TypeError, "object of type '%s' cannot be converted", Py_TYPE(o)->tp_name);
    return nullptr;
}
inline bool verif_is_none(PyObject* o) { return o == Py_None; }
inline bool verif_is_ellipsis(PyObject* o) { return o == Py_Ellipsis; }
inline bool verif_str_check(PyObject* o) { return PyUnicode_Check(o) || PyBytes_Check(o); }
inline bool verif_long_check(PyObject* o) { return PyLong_Check(o); }
inline bool verif_float_check(PyObject* o) { return PyFloat_Check(o); }
inline bool verif_bool_check(PyObject* o) { return PyBool_Check(o); }
inline bool verif_tuple_check(PyObject* o) { return PyTuple_Check(o); }
inline bool verif_list_check(PyObject* o) { return PyList_Check(o); }
inline bool verif_dict_check(PyObject* o) { return PyDict_Check(o); }
inline bool verif_set_check(PyObject* o) { return PySet_Check(o); }
inline bool verif_capsule_check(PyObject* o) { return PyCapsule_CheckExact(o); }
inline bool verif_any_check(PyObject*) { return true; }
inline bool verif_seq_check(PyObject* o) { return PySequence_Check(o); }
inline bool verif_iterable_check(PyObject* o) {
    PyObject* i = PyObject_GetIter(o);
    if (!i) {
        PyErr_Clear();
        return false;
    }
    Py_DECREF(i);
    return true;
}
inline bool verif_callable_check(PyObject* o) { return PyCallable_Check(o); }
inline bool verif_frozenset_check(PyObject* o) { return PyFrozenSet_Check(o); }
inline bool verif_anyset_check(PyObject* o) { return PyAnySet_Check(o); }
inline bool verif_iter_check(PyObject* o) { return PyIter_Check(o); }
inline bool verif_bytes_check(PyObject* o) { return PyBytes_Check(o); }
inline PyObject* verif_to_dict(PyObject* o) { return PyObject_CallFunctionObjArgs((PyObject*)&PyDict_Type, o, nullptr); }
inline PyObject* verif_to_bool(PyObject* o) {
    int r = PyObject_IsTrue(o);
    if (r < 0)
        return nullptr;
    return PyBool_FromLong(r);
}

class none : public object {
    VERIF_PYB_OBJECT(none, object, verif_is_none, verif_noconv)
    none() : object(Py_None, borrowed_t{}) {}
};
class ellipsis : public object {
    VERIF_PYB_OBJECT(ellipsis, object, verif_is_ellipsis, verif_noconv)
    ellipsis() : object(Py_Ellipsis, borrowed_t{}) {}
};
class str : public object {
    VERIF_PYB_OBJECT(str, object, verif_str_check, PyObject_Str)
    str(const char* c = "") : object(steal_checked(PyUnicode_FromString(c))) {}
    str(const std::string& s) : object(steal_checked(PyUnicode_FromStringAndSize(s.data(), (ssize_t)s.size()))) {}
    explicit str(handle h) : object(steal_checked(PyObject_Str(h.ptr()))) {}
    operator std::string() const {
        Py_ssize_t n = 0;
        const char* c = PyUnicode_AsUTF8AndSize(m_ptr, &n);
        if (!c)
            throw error_already_set();
        return std::string(c, (size_t)n);
    }
    template <class... A>
    str format(A&&... a) const {
        return str(this->attr("format")(std::forward<A>(a)...));
    }
};
class bytes : public object {
    VERIF_PYB_OBJECT(bytes, object, verif_bytes_check, PyObject_Bytes)
    bytes() : object(steal_checked(PyBytes_FromStringAndSize("", 0))) {}
    operator std::string() const { return std::string(PyBytes_AS_STRING(m_ptr), (size_t)PyBytes_GET_SIZE(m_ptr)); }
    bytes(const char* c) : bytes(std::string(c)) {}
    bytes(const char* c, size_t n) : bytes(std::string(c, n)) {}
    bytes(const std::string& s) : object(steal_checked(PyBytes_FromStringAndSize(s.data(), (ssize_t)s.size()))) {}
};
class int_ : public object {
    VERIF_PYB_OBJECT(int_, object, verif_long_check, PyNumber_Long)
    int_() : object(steal_checked(PyLong_FromLong(0))) {}
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
    int_(T v) : object(steal_checked(std::is_signed_v<T> ? PyLong_FromLongLong((long long)v) : PyLong_FromUnsignedLongLong((unsigned long long)v))) {}
    template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
    operator T() const {
        return this->template cast<T>();
    }
};
class float_ : public object {
    VERIF_PYB_OBJECT(float_, object, verif_float_check, PyNumber_Float)
    float_(double v = 0) : object(steal_checked(PyFloat_FromDouble(v))) {}
    operator double() const { return PyFloat_AsDouble(m_ptr); }
};
class bool_ : public object {
    VERIF_PYB_OBJECT(bool_, object, verif_bool_check, verif_to_bool)
    bool_(bool v = false) : object(v ? Py_True : Py_False, borrowed_t{}) {}
    operator bool() const { return m_ptr == Py_True; }
};
class iterable : public object {
    VERIF_PYB_OBJECT(iterable, object, verif_iterable_check, verif_noconv)
};
class sequence : public object {
    VERIF_PYB_OBJECT(sequence, object, verif_seq_check, verif_noconv)
    bool empty() const { return size() == 0; }
    size_t size() const { return (size_t)PySequence_Size(m_ptr); }
};
class tuple : public object {
    VERIF_PYB_OBJECT(tuple, object, verif_tuple_check, PySequence_Tuple)
    explicit tuple(size_t n = 0) : object(steal_checked(PyTuple_New((ssize_t)n))) {}
    size_t size() const { return (size_t)PyTuple_Size(m_ptr); }
    bool empty() const { return size() == 0; }
};
class list : public object {
    VERIF_PYB_OBJECT(list, object, verif_list_check, PySequence_List)
    explicit list(size_t n = 0) : object(steal_checked(PyList_New((ssize_t)n))) {}
    size_t size() const { return (size_t)PyList_Size(m_ptr); }
    bool empty() const { return size() == 0; }
    template <class T>
    void append(T&& v) const {
        if (PyList_Append(m_ptr, pybind11::cast(std::forward<T>(v)).ptr()) != 0)
            throw error_already_set();
    }
    void clear() const { PyList_SetSlice(m_ptr, 0, PyList_Size(m_ptr), nullptr); }
    template <class T>
    void insert(size_t i, T&& v) const {
        if (PyList_Insert(m_ptr, (ssize_t)i, pybind11::cast(std::forward<T>(v)).ptr()) != 0)
            throw error_already_set();
    }
};
class anyset : public object {
    VERIF_PYB_OBJECT(anyset, object, verif_anyset_check, verif_noconv)
    size_t size() const { return (size_t)PySet_Size(m_ptr); }
    bool empty() const { return size() == 0; }
};
class frozenset : public object {
    VERIF_PYB_OBJECT(frozenset, object, verif_frozenset_check, PyFrozenSet_New)
    size_t size() const { return (size_t)PySet_Size(m_ptr); }
};
class set : public object {
    VERIF_PYB_OBJECT(set, object, verif_set_check, PySet_New)
    set() : object(steal_checked(PySet_New(nullptr))) {}
    size_t size() const { return (size_t)PySet_Size(m_ptr); }
    bool empty() const { return size() == 0; }
    template <class T>
    bool add(T&& v) {
        if (PySet_Add(m_ptr, pybind11::cast(std::forward<T>(v)).ptr()) != 0)
            throw error_already_set();
        return true;
    }
    void clear() const { PySet_Clear(m_ptr); }
};

// ------------------------------------------------------------------------------------------- arguments

struct arg_v;
struct arg {
    const char* name;
    bool flag_noconvert = false;
    constexpr explicit arg(const char* n = nullptr) : name(n) {}
    template <class T>
    arg_v operator=(T&& v) const;
    arg& noconvert(bool f = true) {
        flag_noconvert = f;
        return *this;
    }
    arg& none(bool = true) { return *this; }
};
struct arg_v : arg {
    object value;
    const char* descr = nullptr;
    arg_v(const char* n, object v) : arg(n), value(std::move(v)) {}
    template <class T>
    arg_v(arg&& base, T&& x, const char* d = nullptr) : arg(base), value(pybind11::cast(std::forward<T>(x))), descr(d) {}
};
template <class T>
arg_v arg::operator=(T&& v) const {
    return arg_v(name, pybind11::cast(std::forward<T>(v)));
}
struct kw_only {};
struct pos_only {};
inline namespace literals {
constexpr arg operator""_a(const char* n, std::size_t) { return arg(n); }
}  // namespace literals

class dict_iterator {
    PyObject* d = nullptr;
    Py_ssize_t pos = -1;
    PyObject *k = nullptr, *v = nullptr;
    void advance() {
        if (!PyDict_Next(d, &pos, &k, &v))
            pos = -1;
    }

   public:
    using value_type = std::pair<handle, handle>;
    using difference_type = ssize_t;
    using reference = value_type;
    using iterator_category = std::input_iterator_tag;
    struct arrow {
        value_type p;
        const value_type* operator->() const { return &p; }
    };
    using pointer = arrow;
    dict_iterator() = default;
    explicit dict_iterator(PyObject* o) : d(o), pos(0) { advance(); }
    value_type operator*() const { return {handle(k), handle(v)}; }
    arrow operator->() const { return {**this}; }
    dict_iterator& operator++() {
        advance();
        return *this;
    }
    bool operator==(const dict_iterator& o) const { return pos == o.pos; }
    bool operator!=(const dict_iterator& o) const { return pos != o.pos; }
};

class dict : public object {
    VERIF_PYB_OBJECT(dict, object, verif_dict_check, verif_to_dict)
    dict() : object(steal_checked(PyDict_New())) {}
    template <class... A, class = std::enable_if_t<(sizeof...(A) > 0) && (std::is_base_of_v<arg_v, std::decay_t<A>> && ...)>>
    explicit dict(A&&... a) : dict() {
        (PyDict_SetItemString(m_ptr, a.name, a.value.ptr()), ...);
    }
    size_t size() const { return (size_t)PyDict_Size(m_ptr); }
    bool empty() const { return size() == 0; }
    void clear() const { PyDict_Clear(m_ptr); }
    dict_iterator begin() const { return dict_iterator(m_ptr); }
    dict_iterator end() const { return dict_iterator(); }
};
class args : public tuple {
   public:
    using tuple::tuple;
};
class kwargs : public dict {
   public:
    using dict::dict;
};
class function : public object {
    VERIF_PYB_OBJECT(function, object, verif_callable_check, verif_noconv)
};
using cpp_function_object = object;

class capsule : public object {
    VERIF_PYB_OBJECT(capsule, object, verif_capsule_check, verif_noconv)
    explicit capsule(const void* v, const char* name = nullptr, void (*d)(PyObject*) = nullptr)
        : object(steal_checked(PyCapsule_New(const_cast<void*>(v), name, d))) {}
    capsule(const void* v, void (*d)(void*)) : object(steal_checked(PyCapsule_New(const_cast<void*>(v), nullptr, [](PyObject* o) {
        auto f = (void (*)(void*))PyCapsule_GetContext(o);
        if (f)
            f(PyCapsule_GetPointer(o, nullptr));
    }))) {
        PyCapsule_SetContext(m_ptr, (void*)d);
    }
    template <class T = void>
    T* get_pointer() const {
        return static_cast<T*>(PyCapsule_GetPointer(m_ptr, PyCapsule_GetName(m_ptr)));
    }
};

class py_iterator {
    object it, cur;
    void advance() {
        cur = reinterpret_steal<object>(PyIter_Next(it.ptr()));
        if (!cur && PyErr_Occurred())
            throw error_already_set();
    }

   public:
    using value_type = handle;
    using difference_type = ssize_t;
    using reference = const handle;
    using pointer = const handle*;
    using iterator_category = std::input_iterator_tag;
    py_iterator() = default;
    explicit py_iterator(object o) : it(std::move(o)) { advance(); }
    handle operator*() const { return cur; }
    py_iterator& operator++() {
        advance();
        return *this;
    }
    bool operator==(const py_iterator& o) const { return cur.ptr() == o.cur.ptr(); }
    bool operator!=(const py_iterator& o) const { return !(*this == o); }
};

// ------------------------------------------------------------------------------------------- classes

struct class_info {
    PyTypeObject* type = nullptr;
    std::vector<struct function_record*> inits;
};
template <class T>
class_info& info_of() {
    static class_info i;
    return i;
}
template <class T>
struct instance {
    PyObject_HEAD T* value;
};

// ------------------------------------------------------------------------------------------- casters

template <class T, class = void>
struct caster {  // a class registered with class_
    static T* from(PyObject* o) {
        auto& i = info_of<T>();
        if (!i.type || !PyObject_TypeCheck(o, i.type))
            throw next_overload{};
        T* v = ((instance<T>*)o)->value;
        if (!v)
            throw next_overload{};
        return v;
    }
    template <class U>
    static PyObject* to(U&& v) {
        auto& i = info_of<T>();
        if (!i.type) {
            PyErr_SetString(PyExc_TypeError, "unregistered type");
            return nullptr;
        }
        PyObject* o = i.type->tp_alloc(i.type, 0);
        if (!o)
            return nullptr;
        ((instance<T>*)o)->value = new T(std::forward<U>(v));
        return o;
    }
};

template <class T>
struct caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool> && !std::is_same_v<T, char>>> {
    static T from(PyObject* o) {
        if (PyFloat_Check(o))
            throw next_overload{};
        PyObject* idx = PyLong_Check(o) ? (Py_INCREF(o), o) : PyNumber_Index(o);
        if (!idx) {
            PyErr_Clear();
            idx = PyNumber_Check(o) ? PyNumber_Long(o) : nullptr;
            if (!idx) {
                PyErr_Clear();
                throw next_overload{};
            }
        }
        T r;
        bool bad;
        if constexpr (std::is_signed_v<T>) {
            long long v = PyLong_AsLongLong(idx);
            bad = v == -1 && PyErr_Occurred();
            r = (T)v;
            bad = bad || (long long)r != v;
        } else {
            unsigned long long v = PyLong_AsUnsignedLongLong(idx);
            bad = v == (unsigned long long)-1 && PyErr_Occurred();
            r = (T)v;
            bad = bad || (unsigned long long)r != v;
        }
        Py_DECREF(idx);
        if (bad) {
            PyErr_Clear();
            throw next_overload{};
        }
        return r;
    }
    static PyObject* to(T v) {
        if constexpr (std::is_signed_v<T>)
            return PyLong_FromLongLong(v);
        else
            return PyLong_FromUnsignedLongLong(v);
    }
};
template <class T>
struct caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static T from(PyObject* o) {
        double v = PyFloat_AsDouble(o);
        if (v == -1.0 && PyErr_Occurred()) {
            PyErr_Clear();
            if (!PyNumber_Check(o))
                throw next_overload{};
            PyObject* f = PyNumber_Float(o);
            if (!f) {
                PyErr_Clear();
                throw next_overload{};
            }
            v = PyFloat_AsDouble(f);
            Py_DECREF(f);
        }
        return (T)v;
    }
    static PyObject* to(T v) { return PyFloat_FromDouble((double)v); }
};
template <>
struct caster<bool> {
    static bool from(PyObject* o) {
        if (o == Py_True)
            return true;
        if (o == Py_False || o == Py_None)
            return false;
        auto* nb = Py_TYPE(o)->tp_as_number;
        if (nb && nb->nb_bool) {
            int r = nb->nb_bool(o);
            if (r == 0 || r == 1)
                return r == 1;
            PyErr_Clear();
        }
        throw next_overload{};
    }
    static PyObject* to(bool v) { return PyBool_FromLong(v); }
};
template <>
struct caster<std::string> {
    static std::string from(PyObject* o) {
        if (PyUnicode_Check(o)) {
            Py_ssize_t n;
            const char* c = PyUnicode_AsUTF8AndSize(o, &n);
            if (!c) {
                PyErr_Clear();
                throw next_overload{};
            }
            return std::string(c, (size_t)n);
        }
        if (PyBytes_Check(o))
            return std::string(PyBytes_AS_STRING(o), (size_t)PyBytes_GET_SIZE(o));
        throw next_overload{};
    }
    static PyObject* to(const std::string& s) { return PyUnicode_FromStringAndSize(s.data(), (ssize_t)s.size()); }
};
template <>
struct caster<std::string_view> {
    static std::string_view from(PyObject* o) {
        Py_ssize_t n;
        if (!PyUnicode_Check(o))
            throw next_overload{};
        const char* c = PyUnicode_AsUTF8AndSize(o, &n);
        return std::string_view(c, (size_t)n);
    }
    static PyObject* to(std::string_view s) { return PyUnicode_FromStringAndSize(s.data(), (ssize_t)s.size()); }
};
template <>
struct caster<const char*> {
    static const char* from(PyObject* o) {
        if (o == Py_None)
            return nullptr;
        if (PyBytes_Check(o))
            return PyBytes_AS_STRING(o);
        if (!PyUnicode_Check(o))
            throw next_overload{};
        const char* c = PyUnicode_AsUTF8(o);
        if (!c) {
            PyErr_Clear();
            throw next_overload{};
        }
        return c;
    }
    static PyObject* to(const char* s) {
        if (!s)
            Py_RETURN_NONE;
        return PyUnicode_FromString(s);
    }
};
template <>
struct caster<char*> : caster<const char*> {};
template <class T>
struct caster<T, std::enable_if_t<std::is_base_of_v<handle, T>>> {
    static T from(PyObject* o) {
        if constexpr (std::is_same_v<T, handle>)
            return handle(o);
        else if constexpr (std::is_same_v<T, object>)
            return reinterpret_borrow<object>(o);
        else
            return T::load_arg(o);
    }
    static PyObject* to(const handle& h) {
        PyObject* p = h.ptr();
        Py_XINCREF(p);
        return p;
    }
};
template <class T>
T load_plain(PyObject* o) {
    if (!T::check_(o))
        throw next_overload{};
    return reinterpret_borrow<T>(o);
}
#define VERIF_PYB_LOAD(T)                                                       \
    template <>                                                                 \
    struct caster<T> {                                                          \
        static T from(PyObject* o) { return load_plain<T>(o); }                 \
        static PyObject* to(const handle& h) {                                  \
            PyObject* p = h.ptr();                                              \
            Py_XINCREF(p);                                                      \
            return p;                                                           \
        }                                                                       \
    };
VERIF_PYB_LOAD(none)
VERIF_PYB_LOAD(ellipsis)
VERIF_PYB_LOAD(str)
VERIF_PYB_LOAD(bytes)
VERIF_PYB_LOAD(int_)
VERIF_PYB_LOAD(float_)
VERIF_PYB_LOAD(bool_)
VERIF_PYB_LOAD(iterable)
VERIF_PYB_LOAD(sequence)
VERIF_PYB_LOAD(tuple)
VERIF_PYB_LOAD(list)
VERIF_PYB_LOAD(set)
VERIF_PYB_LOAD(dict)
VERIF_PYB_LOAD(args)
VERIF_PYB_LOAD(kwargs)
VERIF_PYB_LOAD(function)
VERIF_PYB_LOAD(capsule)
VERIF_PYB_LOAD(anyset)
VERIF_PYB_LOAD(frozenset)
template <>
struct caster<char> {
    static char from(PyObject* o) {
        if (!PyUnicode_Check(o))
            throw next_overload{};
        Py_ssize_t n;
        const char* c = PyUnicode_AsUTF8AndSize(o, &n);
        if (!c || n != 1)
            throw next_overload{};
        return *c;
    }
    static PyObject* to(char c) { return PyUnicode_FromStringAndSize(&c, 1); }
};
template <>
struct caster<obj_accessor> {
    static PyObject* to(const obj_accessor& a) {
        PyObject* p = a.get().ptr();
        Py_XINCREF(p);
        return p;
    }
};
template <>
struct caster<std::nullptr_t> {
    static PyObject* to(std::nullptr_t) { Py_RETURN_NONE; }
};
template <class T>
struct caster<std::unique_ptr<T>> {
    static PyObject* to(std::unique_ptr<T>&& v) {
        if (!v)
            Py_RETURN_NONE;
        PyObject* o = info_of<T>().type->tp_alloc(info_of<T>().type, 0);
        if (o)
            ((instance<T>*)o)->value = v.release();
        return o;
    }
};
template <class A, class B>
struct caster<std::pair<A, B>> {
    static std::pair<A, B> from(PyObject* o) {
        if (!PySequence_Check(o) || PySequence_Size(o) != 2)
            throw next_overload{};
        object a = steal_checked(PySequence_GetItem(o, 0)), b = steal_checked(PySequence_GetItem(o, 1));
        return {caster<A>::from(a.ptr()), caster<B>::from(b.ptr())};
    }
    static PyObject* to(const std::pair<A, B>& v) {
        object a = steal_checked(caster<A>::to(v.first)), b = steal_checked(caster<B>::to(v.second));
        return PyTuple_Pack(2, a.ptr(), b.ptr());
    }
};
template <class... Ts>
struct caster<std::tuple<Ts...>> {
    template <size_t... I>
    static std::tuple<Ts...> get(const object* x, std::index_sequence<I...>) {
        return std::tuple<Ts...>(caster<Ts>::from(x[I].ptr())...);
    }
    static std::tuple<Ts...> from(PyObject* o) {
        if (!PySequence_Check(o) || PySequence_Size(o) != (ssize_t)sizeof...(Ts))
            throw next_overload{};
        std::vector<object> x(sizeof...(Ts) + 1);
        for (size_t i = 0; i < sizeof...(Ts); i++)
            x[i] = steal_checked(PySequence_GetItem(o, (ssize_t)i));
        return get(x.data(), std::index_sequence_for<Ts...>{});
    }
    static PyObject* to(const std::tuple<Ts...>& v) {
        PyObject* t = PyTuple_New(sizeof...(Ts));
        std::apply(
            [&](const auto&... x) {
                ssize_t i = 0;
                (PyTuple_SET_ITEM(t, i++, steal_checked(caster<std::decay_t<decltype(x)>>::to(x)).release().ptr()), ...);
            },
            v);
        return t;
    }
};

template <class T>
object cast(T&& v) {
    using D = std::decay_t<T>;
    if constexpr (std::is_pointer_v<D> && !std::is_same_v<D, const char*> && !std::is_same_v<D, char*>)
        return v ? steal_checked(caster<std::remove_cv_t<std::remove_pointer_t<D>>>::to(*v)) : reinterpret_borrow<object>(Py_None);
    else
        return steal_checked(caster<D>::to(std::forward<T>(v)));
}
template <class T>
object cast(T&& v, return_value_policy) {
    return cast(std::forward<T>(v));
}

template <class T>
constexpr bool is_class_caster = std::is_same_v<decltype(caster<T>::from(nullptr)), T*> && !std::is_pointer_v<T>;

template <class T>
T handle::cast() const {
    using D = std::decay_t<T>;
    try {
        if constexpr (is_class_caster<D>)
            return static_cast<T>(*caster<D>::from(m_ptr));
        else
            return caster<D>::from(m_ptr);
    } catch (next_overload&) {
        throw cast_error(std::string("Unable to cast Python instance of type ") + Py_TYPE(m_ptr)->tp_name + " to C++ type");
    }
}
template <class T>
T cast(const handle& h) {
    return h.cast<T>();
}
template <class T>
T cast(const obj_accessor& h) {
    return h.template cast<T>();
}

template <class... A>
tuple make_tuple(A&&... a) {
    tuple t(sizeof...(A));
    ssize_t i = 0;
    ((PyTuple_SET_ITEM(t.ptr(), i, pybind11::cast(std::forward<A>(a)).release().ptr()), i++), ...);
    return t;
}

// ------------------------------------------------------------------------------------------- object_api

template <class D>
PyObject* object_api<D>::p() const {
    return static_cast<const D*>(this)->ptr();
}
template <class D>
obj_accessor object_api<D>::attr(const char* name) const {
    return obj_accessor(reinterpret_borrow<object>(p()), steal_checked(PyUnicode_FromString(name)), true);
}
template <class D>
obj_accessor object_api<D>::attr(const std::string& name) const {
    return attr(name.c_str());
}
template <class D>
obj_accessor object_api<D>::operator[](const char* key) const {
    return obj_accessor(reinterpret_borrow<object>(p()), steal_checked(PyUnicode_FromString(key)), false);
}
template <class D>
obj_accessor object_api<D>::operator[](handle key) const {
    return obj_accessor(reinterpret_borrow<object>(p()), reinterpret_borrow<object>(key), false);
}
template <class D>
template <class I, class>
obj_accessor object_api<D>::operator[](I idx) const {
    return obj_accessor(reinterpret_borrow<object>(p()), pybind11::cast(idx), false);
}
template <class D>
bool object_api<D>::is(const handle& o) const {
    return p() == o.ptr();
}
template <class D>
bool object_api<D>::equal(const handle& o) const {
    int r = PyObject_RichCompareBool(p(), o.ptr(), Py_EQ);
    if (r < 0)
        throw error_already_set();
    return r == 1;
}
template <class D>
template <class T>
bool object_api<D>::contains(T&& item) const {
    int r = PySequence_Contains(p(), pybind11::cast(std::forward<T>(item)).ptr());
    if (r < 0)
        throw error_already_set();
    return r == 1;
}
template <class D>
py_iterator object_api<D>::begin() const {
    return py_iterator(steal_checked(PyObject_GetIter(p())));
}
template <class D>
py_iterator object_api<D>::end() const {
    return py_iterator();
}
template <class D>
object object_api<D>::get_type() const {
    return reinterpret_borrow<object>((PyObject*)Py_TYPE(p()));
}
template <class D>
template <class... A>
object object_api<D>::operator()(A&&... a) const {
    std::vector<object> pos;
    dict kw;
    auto add = [&](auto&& x) {
        using X = std::decay_t<decltype(x)>;
        if constexpr (std::is_base_of_v<arg_v, X>)
            PyDict_SetItemString(kw.ptr(), x.name, x.value.ptr());
        else
            pos.push_back(pybind11::cast(std::forward<decltype(x)>(x)));
    };
    (add(std::forward<A>(a)), ...);
    tuple t(pos.size());
    for (size_t i = 0; i < pos.size(); i++)
        PyTuple_SET_ITEM(t.ptr(), (ssize_t)i, pos[i].release().ptr());
    return steal_checked(PyObject_Call(p(), t.ptr(), kw.ptr()));
}

inline bool isinstance(handle o, handle type) {
    int r = PyObject_IsInstance(o.ptr(), type.ptr());
    if (r < 0)
        throw error_already_set();
    return r == 1;
}
template <class T>
bool isinstance(handle o) {
    if constexpr (std::is_same_v<T, object> || std::is_same_v<T, handle>)
        return o.ptr() != nullptr;
    else if constexpr (std::is_base_of_v<handle, T>)
        return T::check_(o);
    else
        return info_of<T>().type && PyObject_TypeCheck(o.ptr(), info_of<T>().type);
}
inline size_t len(handle h) {
    Py_ssize_t r = PyObject_Length(h.ptr());
    if (r < 0)
        throw error_already_set();
    return (size_t)r;
}
inline str repr(handle h) { return str(steal_checked(PyObject_Repr(h.ptr()))); }
inline bool hasattr(handle o, const char* n) { return PyObject_HasAttrString(o.ptr(), n) == 1; }
inline object getattr(handle o, const char* n) { return steal_checked(PyObject_GetAttrString(o.ptr(), n)); }
inline object getattr(handle o, const char* n, handle d) {
    PyObject* r = PyObject_GetAttrString(o.ptr(), n);
    if (r)
        return reinterpret_steal<object>(r);
    PyErr_Clear();
    return reinterpret_borrow<object>(d);
}
inline void setattr(handle o, const char* n, handle v) {
    if (PyObject_SetAttrString(o.ptr(), n, v.ptr()) != 0)
        throw error_already_set();
}
template <class... A>
void print(A&&... a) {
    steal_checked(PyImport_ImportModule("builtins")).attr("print")(std::forward<A>(a)...);
}
struct gil_scoped_release {
    PyThreadState* s = PyEval_SaveThread();
    ~gil_scoped_release() { PyEval_RestoreThread(s); }
};
struct gil_scoped_acquire {
    PyGILState_STATE s = PyGILState_Ensure();
    ~gil_scoped_acquire() { PyGILState_Release(s); }
};

template <class... G>
struct call_guard {};
struct module_local {
    constexpr explicit module_local(bool = true) {}
};
struct is_operator {};
struct is_final {};
struct dynamic_attr {};
struct prepend {};
template <size_t N, size_t M>
struct keep_alive {};
struct name {
    const char* value;
};
struct scope {
    handle value;
};
struct sibling {
    handle value;
};

// ------------------------------------------------------------------------------------------- functions

struct arg_record {
    std::string name;
    object value;  // default, or empty
};
struct function_record {
    std::string name, doc;
    std::vector<arg_record> args;
    bool named = false;
    size_t nargs = 0;         // parameters of the C++ function
    size_t npos = (size_t)-1; // how many may be given by position
    bool is_method = false;
    bool has_args = false, has_kwargs = false;
    std::function<PyObject*(const std::vector<PyObject*>&)> impl;
};

template <class P>
struct arg_holder {
    using D = std::decay_t<P>;
    using Target = std::remove_cv_t<std::conditional_t<
        std::is_pointer_v<D> && !std::is_same_v<D, const char*> && !std::is_same_v<D, char*>,
        std::remove_pointer_t<D>,
        D>>;
    static constexpr bool ptr = !std::is_same_v<Target, D>;
    static constexpr bool cls = is_class_caster<Target>;
    std::conditional_t<cls, Target*, std::optional<Target>> v{};
    void load(PyObject* o) {
        if (ptr && o == Py_None)
            return;
        if constexpr (cls)
            v = caster<Target>::from(o);
        else
            v.emplace(caster<Target>::from(o));
    }
    decltype(auto) get() {
        if constexpr (ptr) {
            if constexpr (cls)
                return (D)v;
            else
                return (D)(v ? &*v : nullptr);
        } else if constexpr (std::is_lvalue_reference_v<P>)
            return static_cast<P>(*v);
        else if constexpr (cls)
            return static_cast<D>(*v);
        else
            return static_cast<D&&>(*v);
    }
};

template <class R, class... P>
std::function<PyObject*(const std::vector<PyObject*>&)> wrap(std::function<R(P...)> f) {
    return [f](const std::vector<PyObject*>& a) -> PyObject* {
        std::tuple<arg_holder<P>...> h;
        size_t i = 0;
        std::apply([&](auto&... x) { (x.load(a[i++]), ...); }, h);
        if constexpr (std::is_void_v<R>) {
            std::apply([&](auto&... x) { f(x.get()...); }, h);
            Py_RETURN_NONE;
        } else {
            return std::apply([&](auto&... x) { return pybind11::cast(f(x.get()...)).release().ptr(); }, h);
        }
    };
}

template <class... P>
constexpr size_t count_args = ((std::is_same_v<std::decay_t<P>, pybind11::args> ? 1 : 0) + ... + 0);
template <class... P>
constexpr size_t count_kwargs = ((std::is_same_v<std::decay_t<P>, pybind11::kwargs> ? 1 : 0) + ... + 0);

template <class F>
struct sig : sig<decltype(&F::operator())> {};
template <class C, class R, class... P>
struct sig<R (C::*)(P...)> {
    using fn = std::function<R(P...)>;
    static constexpr size_t n = sizeof...(P), na = count_args<P...>, nk = count_kwargs<P...>;
};
template <class C, class R, class... P>
struct sig<R (C::*)(P...) const> {
    using fn = std::function<R(P...)>;
    static constexpr size_t n = sizeof...(P), na = count_args<P...>, nk = count_kwargs<P...>;
};
template <class C, class R, class... P>
struct sig<R (C::*)(P...) const noexcept> : sig<R (C::*)(P...) const> {};
template <class C, class R, class... P>
struct sig<R (C::*)(P...) noexcept> : sig<R (C::*)(P...)> {};
template <class R, class... P>
struct sig<R (*)(P...)> {
    using fn = std::function<R(P...)>;
    static constexpr size_t n = sizeof...(P), na = count_args<P...>, nk = count_kwargs<P...>;
};
template <class R, class... P>
struct sig<R (*)(P...) noexcept> : sig<R (*)(P...)> {};

template <class C, class F>
auto as_method(F&& f) {
    return std::forward<F>(f);
}
template <class C, class B, class R, class... P>
auto as_method(R (B::*m)(P...)) {
    return [m](C& self, P... p) -> R { return (self.*m)(std::forward<P>(p)...); };
}
template <class C, class B, class R, class... P>
auto as_method(R (B::*m)(P...) const) {
    return [m](const C& self, P... p) -> R { return (self.*m)(std::forward<P>(p)...); };
}
template <class C, class B, class R, class... P>
auto as_method(R (B::*m)(P...) noexcept) {
    return [m](C& self, P... p) -> R { return (self.*m)(std::forward<P>(p)...); };
}
template <class C, class B, class R, class... P>
auto as_method(R (B::*m)(P...) const noexcept) {
    return [m](const C& self, P... p) -> R { return (self.*m)(std::forward<P>(p)...); };
}

inline void process(function_record& r, const char* doc) { r.doc = doc; }
inline void process(function_record& r, const arg& a) {
    r.args.push_back({a.name ? a.name : "", object()});
    r.named = true;
}
inline void process(function_record& r, const arg_v& a) {
    r.args.push_back({a.name ? a.name : "", a.value});
    r.named = true;
}
inline void process(function_record& r, const kw_only&) { r.npos = r.args.size(); }
inline void process(function_record&, const pos_only&) {}
template <class T>
void process(function_record&, const T&) {}

template <class F, class... E>
function_record* make_record(const char* name, bool method, F&& f, const E&... extra) {
    using D = std::decay_t<F>;
    auto* r = new function_record;
    r->name = name;
    r->is_method = method;
    r->nargs = sig<D>::n - sig<D>::na - sig<D>::nk;
    r->has_args = sig<D>::na > 0;
    r->has_kwargs = sig<D>::nk > 0;
    r->impl = wrap(typename sig<D>::fn(std::forward<F>(f)));
    (process(*r, extra), ...);
    if (r->named && method)
        r->args.insert(r->args.begin(), {"self", object()});
    if (r->named && r->npos != (size_t)-1 && method)
        r->npos++;
    if (!r->named)
        r->args.resize(r->nargs);
    if (r->args.size() != r->nargs)
        throw std::runtime_error(std::string("number of annotations does not match the function ") + name);
    if (r->npos == (size_t)-1)
        r->npos = r->nargs;
    return r;
}

// Tries the overloads in order; nullptr with a Python error set on failure.
inline PyObject* dispatch(const std::vector<function_record*>& fs, PyObject* args, PyObject* kw) {
    size_t np = (size_t)PyTuple_GET_SIZE(args);
    for (auto* f : fs) {
        if (np > f->npos && !f->has_args)
            continue;
        std::vector<PyObject*> a(f->nargs, nullptr);
        object rest, extra;
        if (f->has_args)
            rest = steal_checked(PyTuple_GetSlice(args, (ssize_t)std::min(np, f->npos), (ssize_t)np));
        if (f->has_kwargs)
            extra = steal_checked(kw ? PyDict_Copy(kw) : PyDict_New());
        for (size_t i = 0; i < std::min(np, f->npos); i++)
            a[i] = PyTuple_GET_ITEM(args, (ssize_t)i);
        size_t used = 0;
        bool ok = true;
        for (size_t i = 0; i < f->nargs && ok; i++) {
            PyObject* k = kw && !f->args[i].name.empty() ? PyDict_GetItemString(kw, f->args[i].name.c_str()) : nullptr;
            if (k) {
                if (a[i])
                    ok = false;
                a[i] = k;
                used++;
                if (f->has_kwargs)
                    PyDict_DelItemString(extra.ptr(), f->args[i].name.c_str());
            }
            if (!a[i])
                a[i] = f->args[i].value.ptr();
            if (!a[i])
                ok = false;
        }
        if (!ok || (kw && !f->has_kwargs && used != (size_t)PyDict_Size(kw)))
            continue;
        if (f->has_args)
            a.push_back(rest.ptr());
        if (f->has_kwargs)
            a.push_back(extra.ptr());
        try {
            return f->impl(a);
        } catch (next_overload&) {
            continue;
        } catch (...) {
            translate_exception();
            return nullptr;
        }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", fs.empty() ? "?" : fs[0]->name.c_str());
    return nullptr;
}

struct overloads {
    std::vector<function_record*> fs;
    PyMethodDef def;
};
inline PyObject* call_overloads(PyObject* self, PyObject* args, PyObject* kw) {
    auto* o = (overloads*)PyCapsule_GetPointer(self, "verif_overloads");
    return dispatch(o->fs, args, kw);
}
// Adds the function to `scope` (extending an overload set of the same name).
inline void install(handle scope, function_record* r, bool method) {
    static std::map<std::pair<PyObject*, std::string>, overloads*> table;
    auto& o = table[{scope.ptr(), r->name}];
    if (o) {
        o->fs.push_back(r);
        return;
    }
    o = new overloads;
    o->fs.push_back(r);
    o->def = {r->name.c_str(), (PyCFunction)(void (*)(void))call_overloads, METH_VARARGS | METH_KEYWORDS, r->doc.c_str()};
    object cap = steal_checked(PyCapsule_New(o, "verif_overloads", nullptr));
    object f = steal_checked(PyCFunction_NewEx(&o->def, cap.ptr(), nullptr));
    if (method)
        f = steal_checked(PyInstanceMethod_New(f.ptr()));
    if (PyObject_SetAttrString(scope.ptr(), r->name.c_str(), f.ptr()) != 0)
        throw error_already_set();
}

class cpp_function : public object {
   public:
    template <class F, class... E>
    cpp_function(F&& f, const E&... e) {
        auto* o = new overloads;
        o->fs.push_back(make_record("", false, std::forward<F>(f), e...));
        o->def = {"", (PyCFunction)(void (*)(void))call_overloads, METH_VARARGS | METH_KEYWORDS, ""};
        object cap = steal_checked(PyCapsule_New(o, "verif_overloads", nullptr));
        m_ptr = PyCFunction_NewEx(&o->def, cap.ptr(), nullptr);
    }
};

class iterator : public object {
   public:
    iterator() = default;
    iterator(handle h, borrowed_t) : object(h, borrowed_t{}) {}
    iterator(handle h, stolen_t) : object(h, stolen_t{}) {}
};
inline iterator iter(handle h) {
    PyObject* o = PyObject_GetIter(h.ptr());
    if (!o)
        throw error_already_set();
    return iterator(o, stolen_t{});
}
template <return_value_policy = return_value_policy::reference_internal, class It, class End, class... E>
iterator make_iterator(It b, End e, E&&...) {
    list l;
    for (; b != e; ++b)
        l.append(*b);
    return iter(l);
}
template <return_value_policy = return_value_policy::reference_internal, class C, class... E>
iterator make_iterator(C& c, E&&...) {
    return make_iterator(std::begin(c), std::end(c));
}

class module_ : public object {
   public:
    module_() = default;
    module_(handle h, borrowed_t) : object(h, borrowed_t{}) {}
    module_(handle h, stolen_t) : object(h, stolen_t{}) {}
    static module_ import(const char* n) {
        PyObject* o = PyImport_ImportModule(n);
        if (!o)
            throw error_already_set();
        return module_(o, stolen_t{});
    }
    template <class F, class... E>
    module_& def(const char* name, F&& f, const E&... e) {
        install(*this, make_record(name, false, std::forward<F>(f), e...), false);
        return *this;
    }
    module_ def_submodule(const char* name, const char* = nullptr) {
        std::string full = std::string(PyModule_GetName(m_ptr)) + "." + name;
        module_ m(PyImport_AddModule(full.c_str()), borrowed_t{});
        attr(name) = (const object&)m;
        return m;
    }
    const char*& doc() {
        static const char* d;
        return d;
    }
};
using module = module_;

template <class... A>
struct init_t {
    template <class C>
    static auto factory() {
        return [](A... a) { return new C(std::forward<A>(a)...); };
    }
};
template <class... A>
init_t<A...> init() {
    return {};
}
template <class F>
struct init_f {
    F f;
};
template <class F>
init_f<std::decay_t<F>> init(F&& f) {
    return {std::forward<F>(f)};
}

template <class T, class... Extra>
class class_ : public object {
    static PyObject* tp_new(PyTypeObject* t, PyObject*, PyObject*) {
        PyObject* o = t->tp_alloc(t, 0);
        if (o)
            ((instance<T>*)o)->value = nullptr;
        return o;
    }
    static int tp_init(PyObject* self, PyObject* args, PyObject* kw) {
        auto& fs = info_of<T>().inits;
        PyObject* r = dispatch(fs, args, kw);
        if (!r)
            return -1;
        delete ((instance<T>*)self)->value;
        ((instance<T>*)self)->value = (T*)PyCapsule_GetPointer(r, nullptr);
        Py_DECREF(r);
        return 0;
    }
    static void tp_dealloc(PyObject* self) {
        delete ((instance<T>*)self)->value;
        PyTypeObject* t = Py_TYPE(self);
        t->tp_free(self);
        Py_DECREF(t);
    }

   public:
    class_() = default;
    template <class... E>
    class_(handle scope, const char* name, const E&...) {
        std::string full = std::string(PyModule_GetName(scope.ptr())) + "." + name;
        auto* stored = new std::string(full);
        PyType_Slot slots[] = {
            {Py_tp_new, (void*)tp_new},
            {Py_tp_init, (void*)tp_init},
            {Py_tp_dealloc, (void*)tp_dealloc},
            {0, nullptr}};
        PyType_Spec spec = {stored->c_str(), (int)sizeof(instance<T>), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        m_ptr = PyType_FromSpec(&spec);
        if (!m_ptr)
            throw error_already_set();
        info_of<T>().type = (PyTypeObject*)m_ptr;
        if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) != 0)
            throw error_already_set();
    }
    template <class F, class... E>
    void def_init(F f, const E&... e) {
        auto make = [f](auto... a) { return f(a...); };
        (void)make;
        auto* r = make_init_record(std::function(f), e...);
        info_of<T>().inits.push_back(r);
    }
    template <class R, class... P, class... E>
    function_record* make_init_record(std::function<R(P...)> f, const E&... e) {
        auto* r = new function_record;
        r->name = "__init__";
        r->nargs = sizeof...(P);
        r->impl = [f](const std::vector<PyObject*>& a) -> PyObject* {
            std::tuple<arg_holder<P>...> h;
            size_t i = 0;
            std::apply([&](auto&... x) { (x.load(a[i++]), ...); }, h);
            return std::apply(
                [&](auto&... x) -> PyObject* {
                    if constexpr (std::is_pointer_v<R>)
                        return PyCapsule_New((void*)f(x.get()...), nullptr, nullptr);
                    else
                        return PyCapsule_New((void*)new T(f(x.get()...)), nullptr, nullptr);
                },
                h);
        };
        (process(*r, e), ...);
        if (!r->named)
            r->args.resize(r->nargs);
        if (r->npos == (size_t)-1)
            r->npos = r->nargs;
        return r;
    }
    template <class... A, class... E>
    class_& def(init_t<A...>, const E&... e) {
        info_of<T>().inits.push_back(make_init_record(std::function<T*(A...)>([](A... a) { return new T(std::forward<A>(a)...); }), e...));
        return *this;
    }
    template <class F, class... E>
    class_& def(init_f<F> f, const E&... e) {
        info_of<T>().inits.push_back(make_init_record(typename sig<F>::fn(f.f), e...));
        return *this;
    }
    template <class F, class... E>
    class_& def(const char* name, F&& f, const E&... e) {
        install(*this, make_record(name, true, as_method<T>(std::forward<F>(f)), e...), true);
        return *this;
    }
    template <class F, class... E>
    class_& def_static(const char* name, F&& f, const E&... e) {
        install(*this, make_record(name, false, std::forward<F>(f), e...), false);
        return *this;
    }
    template <class F, class... E>
    class_& def_property_readonly(const char* name, F&& f, const E&...) {
        object g = cpp_function(as_method<T>(std::forward<F>(f)));
        object prop = steal_checked(PyObject_CallFunctionObjArgs((PyObject*)&PyProperty_Type, g.ptr(), nullptr));
        PyObject_SetAttrString(m_ptr, name, prop.ptr());
        return *this;
    }
    template <class G, class S, class... E>
    class_& def_property(const char* name, G&& get, S&& set, const E&...) {
        object g = cpp_function(as_method<T>(std::forward<G>(get))), st = cpp_function(as_method<T>(std::forward<S>(set)));
        object prop = steal_checked(PyObject_CallFunctionObjArgs((PyObject*)&PyProperty_Type, g.ptr(), st.ptr(), nullptr));
        PyObject_SetAttrString(m_ptr, name, prop.ptr());
        return *this;
    }
    template <class C, class M, class... E>
    class_& def_readonly(const char* name, M C::*pm, const E&...) {
        return def_property_readonly(name, [pm](const T& s) { return s.*pm; });
    }
    template <class C, class M, class... E>
    class_& def_readwrite(const char* name, M C::*pm, const E&...) {
        object g = cpp_function([pm](const T& s) { return s.*pm; });
        object st = cpp_function([pm](T& s, const M& v) { s.*pm = v; });
        object prop = steal_checked(PyObject_CallFunctionObjArgs((PyObject*)&PyProperty_Type, g.ptr(), st.ptr(), nullptr));
        PyObject_SetAttrString(m_ptr, name, prop.ptr());
        return *this;
    }
};

template <class T>
class enum_ : public class_<T> {
    object home;
    std::vector<std::pair<std::string, object>> all;

   public:
    template <class... E>
    enum_(handle scope, const char* name, const E&... e) : class_<T>(scope, name, e...), home(reinterpret_borrow<object>(scope)) {
        using U = std::underlying_type_t<T>;
        this->def(pybind11::init([](U v) { return (T)v; }));
        this->def("__int__", [](T v) { return (U)v; });
        this->def("__index__", [](T v) { return (U)v; });
        this->def("__hash__", [](T v) { return (U)v; });
        this->def("__eq__", [](T a, T b) { return a == b; });
        this->def_property_readonly("value", [](T v) { return (U)v; });
    }
    enum_& value(const char* name, T v, const char* = nullptr) {
        object o = pybind11::cast(v);
        PyObject_SetAttrString(this->m_ptr, name, o.ptr());
        all.push_back({name, o});
        return *this;
    }
    enum_& export_values() {
        for (auto& x : all)
            PyObject_SetAttrString(home.ptr(), x.first.c_str(), x.second.ptr());
        return *this;
    }
};

using exception_translator = void (*)(std::exception_ptr);
inline std::vector<exception_translator>& translators() {
    static std::vector<exception_translator> t;
    return t;
}
inline void register_exception_translator(exception_translator t) { translators().insert(translators().begin(), t); }
inline void register_local_exception_translator(exception_translator t) { register_exception_translator(t); }

}  // namespace pybind11

extern "C" void verif_np_import(void);

#define PYBIND11_MODULE(name, var, ...)                                                                    \
    static void verif_pyb_init_##name(pybind11::module_&);                                                 \
    static PyModuleDef verif_pyb_def_##name = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr};        \
    extern "C" __attribute__((visibility("default"))) PyObject* PyInit_##name() {                          \
        verif_np_import();                                                                                 \
        PyObject* m = PyModule_Create(&verif_pyb_def_##name);                                              \
        if (!m)                                                                                            \
            return nullptr;                                                                                \
        pybind11::module_ mm(m, pybind11::borrowed_t{});                                                   \
        try {                                                                                              \
            verif_pyb_init_##name(mm);                                                                     \
        } catch (...) {                                                                                    \
            pybind11::translate_exception();                                                               \
            return nullptr;                                                                                \
        }                                                                                                  \
        return m;                                                                                          \
    }                                                                                                      \
    static void verif_pyb_init_##name(pybind11::module_&(var))

#endif
