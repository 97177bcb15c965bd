#ifndef VERIF_STUB_PYBIND11_STL_H
#define VERIF_STUB_PYBIND11_STL_H
#include "pybind11/pybind11.h"

namespace pybind11 {

template <class S, class V>
struct set_caster {
    static S from(PyObject* o) {
        if (!PyAnySet_Check(o))
            throw next_overload{};
        S out;
        for (auto h : reinterpret_borrow<object>(o))
            out.insert(caster<V>::from(h.ptr()));
        return out;
    }
    static PyObject* to(const S& s) {
        object r = steal_checked(PySet_New(nullptr));
        for (auto& x : s)
            if (PySet_Add(r.ptr(), pybind11::cast(x).ptr()) != 0)
                throw error_already_set();
        return r.release().ptr();
    }
};
template <class V, class C, class A>
struct caster<std::set<V, C, A>> : set_caster<std::set<V, C, A>, V> {};
template <class V, class H, class E, class A>
struct caster<std::unordered_set<V, H, E, A>> : set_caster<std::unordered_set<V, H, E, A>, V> {};

template <class S, class V>
struct list_caster {
    static S from(PyObject* o) {
        if (!PySequence_Check(o) || PyUnicode_Check(o) || PyBytes_Check(o))
            throw next_overload{};
        S out;
        for (auto h : reinterpret_borrow<object>(o))
            out.push_back(caster<V>::from(h.ptr()));
        return out;
    }
    static PyObject* to(const S& s) {
        object r = steal_checked(PyList_New(0));
        for (const auto& x : s)
            if (PyList_Append(r.ptr(), pybind11::cast(V(x)).ptr()) != 0)
                throw error_already_set();
        return r.release().ptr();
    }
};
template <class V, class A>
struct caster<std::vector<V, A>> : list_caster<std::vector<V, A>, V> {};
template <class V, class A>
struct caster<std::list<V, A>> : list_caster<std::list<V, A>, V> {};

template <class V, size_t N>
struct caster<std::array<V, N>> {
    static std::array<V, N> from(PyObject* o) {
        std::vector<V> v = list_caster<std::vector<V>, V>::from(o);
        if (v.size() != N)
            throw next_overload{};
        std::array<V, N> a;
        std::copy(v.begin(), v.end(), a.begin());
        return a;
    }
    static PyObject* to(const std::array<V, N>& a) {
        return list_caster<std::vector<V>, V>::to(std::vector<V>(a.begin(), a.end()));
    }
};
template <class M, class K, class V>
struct map_caster {
    static M from(PyObject* o) {
        if (!PyDict_Check(o))
            throw next_overload{};
        M out;
        PyObject *k, *v;
        Py_ssize_t pos = 0;
        while (PyDict_Next(o, &pos, &k, &v))
            out.emplace(caster<K>::from(k), caster<V>::from(v));
        return out;
    }
    static PyObject* to(const M& m) {
        object r = steal_checked(PyDict_New());
        for (auto& x : m)
            if (PyDict_SetItem(r.ptr(), pybind11::cast(x.first).ptr(), pybind11::cast(x.second).ptr()) != 0)
                throw error_already_set();
        return r.release().ptr();
    }
};
template <class K, class V, class C, class A>
struct caster<std::map<K, V, C, A>> : map_caster<std::map<K, V, C, A>, K, V> {};
template <class K, class V, class H, class E, class A>
struct caster<std::unordered_map<K, V, H, E, A>> : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};

template <class V>
struct caster<std::optional<V>> {
    static std::optional<V> from(PyObject* o) {
        if (o == Py_None)
            return std::nullopt;
        return caster<V>::from(o);
    }
    static PyObject* to(const std::optional<V>& v) {
        if (!v)
            Py_RETURN_NONE;
        return caster<V>::to(*v);
    }
};

}  // namespace pybind11
#endif
