#ifndef VERIF_STUB_PYBIND11_FUNCTIONAL_H
#define VERIF_STUB_PYBIND11_FUNCTIONAL_H
#include "pybind11/pybind11.h"
namespace pybind11 {
template <class R, class... P>
struct caster<std::function<R(P...)>> {
    static std::function<R(P...)> from(PyObject* o) {
        if (!PyCallable_Check(o))
            throw next_overload{};
        object f = reinterpret_borrow<object>(o);
        return [f](P... p) -> R {
            if constexpr (std::is_void_v<R>)
                f(p...);
            else
                return f(p...).template cast<R>();
        };
    }
};
}  // namespace pybind11
#endif
