#ifndef VERIF_STUB_PYBIND11_NUMPY_H
#define VERIF_STUB_PYBIND11_NUMPY_H
#include "pybind11/pybind11.h"

#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#define PY_ARRAY_UNIQUE_SYMBOL verif_np_api
#ifndef VERIF_NP_IMPORT
#define NO_IMPORT_ARRAY
#endif
#include <numpy/arrayobject.h>

namespace pybind11 {

template <class T>
constexpr int npy_type() {
    if constexpr (std::is_same_v<T, bool>)
        return NPY_BOOL;
    else if constexpr (std::is_floating_point_v<T>)
        return sizeof(T) == 4 ? NPY_FLOAT : NPY_DOUBLE;
    else if constexpr (std::is_signed_v<T>)
        return sizeof(T) == 1 ? NPY_INT8 : sizeof(T) == 2 ? NPY_INT16 : sizeof(T) == 4 ? NPY_INT32 : NPY_INT64;
    else
        return sizeof(T) == 1 ? NPY_UINT8 : sizeof(T) == 2 ? NPY_UINT16 : sizeof(T) == 4 ? NPY_UINT32 : NPY_UINT64;
}

struct buffer_info {
    void* ptr = nullptr;
    ssize_t itemsize = 0, size = 0, ndim = 0;
    std::vector<ssize_t> shape, strides;
};

struct shape_container : std::vector<ssize_t> {
    shape_container() = default;
    shape_container(std::initializer_list<ssize_t> l) : std::vector<ssize_t>(l) {}
    template <class I, class = std::enable_if_t<std::is_integral_v<I>>>
    shape_container(const std::vector<I>& v) : std::vector<ssize_t>(v.begin(), v.end()) {}
    template <class I, size_t N, class = std::enable_if_t<std::is_integral_v<I>>>
    shape_container(const std::array<I, N>& v) : std::vector<ssize_t>(v.begin(), v.end()) {}
};

template <class T, ssize_t N>
class unchecked_ref {
   protected:
    const char* d;
    std::vector<ssize_t> sh, st;

   public:
    unchecked_ref(const char* d_, std::vector<ssize_t> a, std::vector<ssize_t> b) : d(d_), sh(std::move(a)), st(std::move(b)) {}
    template <class... I>
    ssize_t off(I... i) const {
        ssize_t o = 0, k = 0;
        ((o += (ssize_t)i * st[(size_t)k++]), ...);
        return o;
    }
    template <class... I>
    const T& operator()(I... i) const {
        return *reinterpret_cast<const T*>(d + off(i...));
    }
    const T& operator[](ssize_t i) const { return (*this)(i); }
    template <class... I>
    const T* data(I... i) const {
        return &(*this)(i...);
    }
    ssize_t shape(ssize_t i) const { return sh[(size_t)i]; }
    ssize_t ndim() const { return (ssize_t)sh.size(); }
    ssize_t size() const {
        ssize_t s = 1;
        for (auto x : sh)
            s *= x;
        return s;
    }
    static constexpr ssize_t itemsize() { return sizeof(T); }
    ssize_t nbytes() const { return size() * itemsize(); }
};
template <class T, ssize_t N>
class unchecked_mut : public unchecked_ref<T, N> {
   public:
    using unchecked_ref<T, N>::unchecked_ref;
    template <class... I>
    T& operator()(I... i) {
        return const_cast<T&>(unchecked_ref<T, N>::operator()(i...));
    }
    T& operator[](ssize_t i) { return (*this)(i); }
    template <class... I>
    T* mutable_data(I... i) {
        return &(*this)(i...);
    }
};

class dtype : public object {
   public:
    dtype(handle h, stolen_t) : object(h, stolen_t{}) {}
    dtype(handle h, borrowed_t) : object(h, borrowed_t{}) {}
    template <class T>
    static dtype of() {
        return dtype((PyObject*)PyArray_DescrFromType(npy_type<T>()), stolen_t{});
    }
    ssize_t itemsize() const { return PyDataType_ELSIZE((PyArray_Descr*)m_ptr); }
    char kind() const { return ((PyArray_Descr*)m_ptr)->kind; }
};

class array : public object {
   public:
    enum { c_style = NPY_ARRAY_C_CONTIGUOUS, f_style = NPY_ARRAY_F_CONTIGUOUS, forcecast = NPY_ARRAY_FORCECAST };
    array() = default;
    array(handle h, borrowed_t) : object(h, borrowed_t{}) {}
    array(handle h, stolen_t) : object(h, stolen_t{}) {}
    array(const object& o) : object(check_(o) ? o : steal_checked(PyArray_FromAny(o.ptr(), nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr))) {}
    array(const obj_accessor& a) : array(a.get()) {}
    static bool check_(handle h) { return h.ptr() && PyArray_Check(h.ptr()); }
    static array load_arg(PyObject* o) {
        if (!check_(o))
            throw next_overload{};
        return array(o, borrowed_t{});
    }
    PyArrayObject* a() const { return (PyArrayObject*)m_ptr; }
    pybind11::dtype dtype() const { return pybind11::dtype((PyObject*)PyArray_DESCR(a()), borrowed_t{}); }
    ssize_t size() const {
        ssize_t s = 1;
        for (ssize_t i = 0; i < ndim(); i++)
            s *= shape(i);
        return s;
    }
    ssize_t ndim() const { return PyArray_NDIM(a()); }
    ssize_t itemsize() const { return PyArray_ITEMSIZE(a()); }
    ssize_t nbytes() const { return size() * itemsize(); }
    const ssize_t* shape() const { return (const ssize_t*)PyArray_SHAPE(a()); }
    ssize_t shape(ssize_t i) const {
        if (i >= ndim())
            throw index_error("invalid axis: " + std::to_string(i) + " (ndim = " + std::to_string(ndim()) + ")");
        return shape()[i];
    }
    const ssize_t* strides() const { return (const ssize_t*)PyArray_STRIDES(a()); }
    ssize_t strides(ssize_t i) const { return strides()[i]; }
    bool writeable() const { return PyArray_ISWRITEABLE(a()); }
    bool owndata() const { return PyArray_CHKFLAGS(a(), NPY_ARRAY_OWNDATA); }
    template <class... I>
    const void* data(I... i) const {
        ssize_t o = 0, k = 0;
        ((o += (ssize_t)i * strides(k++)), ...);
        return PyArray_BYTES(a()) + o;
    }
    template <class... I>
    void* mutable_data(I... i) {
        if (!writeable())
            throw std::domain_error("array is not writeable");
        return const_cast<void*>(data(i...));
    }
    buffer_info request(bool w = false) const {
        if (w && !writeable())
            throw std::domain_error("array is not writeable");
        buffer_info b;
        b.ptr = PyArray_DATA(a());
        b.itemsize = itemsize();
        b.size = size();
        b.ndim = ndim();
        b.shape.assign(shape(), shape() + ndim());
        b.strides.assign(strides(), strides() + ndim());
        return b;
    }
    void resize(shape_container s, bool refcheck = true) {
        PyArray_Dims d{(npy_intp*)s.data(), (int)s.size()};
        object n = steal_checked(PyArray_Resize(a(), &d, refcheck, NPY_ANYORDER));
        if (check_(n))
            static_cast<object&>(*this) = n;
    }
    array reshape(shape_container s) const {
        PyArray_Dims d{(npy_intp*)s.data(), (int)s.size()};
        return array(steal_checked(PyArray_Newshape(a(), &d, NPY_ANYORDER)));
    }
    array squeeze() const { return array(steal_checked(PyArray_Squeeze(a()))); }
    template <class T, ssize_t N = -1>
    unchecked_ref<T, N> unchecked() const {
        if (N >= 0 && ndim() != N)
            throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " + std::to_string(N));
        return {PyArray_BYTES(a()), {shape(), shape() + ndim()}, {strides(), strides() + ndim()}};
    }
    template <class T, ssize_t N = -1>
    unchecked_mut<T, N> mutable_unchecked() {
        if (N >= 0 && ndim() != N)
            throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " + std::to_string(N));
        if (!writeable())
            throw std::domain_error("array is not writeable");
        return {PyArray_BYTES(a()), {shape(), shape() + ndim()}, {strides(), strides() + ndim()}};
    }
};

template <class T, int Flags = array::forcecast>
class array_t : public array {
    static PyObject* raw(PyObject* o) {
        if (!o) {
            PyErr_SetString(PyExc_ValueError, "cannot create a pybind11::array_t from a nullptr");
            return nullptr;
        }
        return PyArray_FromAny(o, PyArray_DescrFromType(npy_type<T>()), 0, 0, NPY_ARRAY_ENSUREARRAY | Flags, nullptr);
    }
    static object make(const std::vector<ssize_t>& shape, const std::vector<ssize_t>* strides, const T* p, handle base) {
        int flags = 0;
        if (p)
            flags = base && PyArray_Check(base.ptr()) ? (PyArray_FLAGS((PyArrayObject*)base.ptr()) & ~NPY_ARRAY_OWNDATA) : NPY_ARRAY_WRITEABLE;
        object r = steal_checked(PyArray_NewFromDescr(
            &PyArray_Type,
            PyArray_DescrFromType(npy_type<T>()),
            (int)shape.size(),
            (npy_intp*)shape.data(),
            strides ? (npy_intp*)strides->data() : nullptr,
            const_cast<T*>(p),
            flags,
            nullptr));
        if (p) {
            if (base) {
                Py_INCREF(base.ptr());
                if (PyArray_SetBaseObject((PyArrayObject*)r.ptr(), base.ptr()) != 0)
                    throw error_already_set();
            } else {
                r = steal_checked(PyArray_NewCopy((PyArrayObject*)r.ptr(), NPY_ANYORDER));
            }
        }
        return r;
    }

   public:
    using value_type = T;
    array_t() : array(make({0}, nullptr, nullptr, handle()).release(), stolen_t{}) {}
    array_t(handle h, borrowed_t) : array(h, borrowed_t{}) {}
    array_t(handle h, stolen_t) : array(h, stolen_t{}) {}
    array_t(const object& o) : array(raw(o.ptr()), stolen_t{}) {
        if (!m_ptr)
            throw error_already_set();
    }
    array_t(const obj_accessor& a) : array_t(a.get()) {}
    array_t(const array_t&) = default;
    array_t(array_t&&) = default;
    array_t& operator=(const array_t&) = default;
    array_t& operator=(array_t&&) = default;
    template <class I, class = std::enable_if_t<std::is_integral_v<I>>>
    explicit array_t(I count, const T* p = nullptr, handle base = handle()) : array(make({(ssize_t)count}, nullptr, p, base).release(), stolen_t{}) {}
    explicit array_t(shape_container s, const T* p = nullptr, handle base = handle()) : array(make(s, nullptr, p, base).release(), stolen_t{}) {}
    array_t(shape_container s, shape_container st, const T* p = nullptr, handle base = handle()) : array(make(s, &st, p, base).release(), stolen_t{}) {}
    static bool check_(handle h) {
        return h.ptr() && PyArray_Check(h.ptr()) && PyArray_EquivTypenums(PyArray_TYPE((PyArrayObject*)h.ptr()), npy_type<T>()) &&
               (PyArray_FLAGS((PyArrayObject*)h.ptr()) & (Flags & (c_style | f_style))) == (Flags & (c_style | f_style));
    }
    static array_t ensure(handle h) {
        PyObject* r = raw(h.ptr());
        if (!r)
            PyErr_Clear();
        return array_t(r, stolen_t{});
    }
    static array_t load_arg(PyObject* o) {
        array_t r = ensure(o);
        if (!r)
            throw next_overload{};
        return r;
    }
    static constexpr ssize_t itemsize() { return sizeof(T); }
    template <class... I>
    const T* data(I... i) const {
        return static_cast<const T*>(array::data(i...));
    }
    template <class... I>
    T* mutable_data(I... i) {
        return static_cast<T*>(array::mutable_data(i...));
    }
    template <class... I>
    const T& at(I... i) const {
        if ((ssize_t)sizeof...(i) != ndim())
            throw index_error("index dimension mismatch");
        ssize_t k = 0;
        ([&] { if ((ssize_t)i < 0 || (ssize_t)i >= shape(k++)) throw index_error("index out of bounds"); }(), ...);
        return *data(i...);
    }
    template <class... I>
    T& mutable_at(I... i) {
        return const_cast<T&>(at(i...));
    }
    template <ssize_t N = -1>
    unchecked_ref<T, N> unchecked() const {
        return array::unchecked<T, N>();
    }
    template <ssize_t N = -1>
    unchecked_mut<T, N> mutable_unchecked() {
        return array::mutable_unchecked<T, N>();
    }
};

}  // namespace pybind11
#endif
