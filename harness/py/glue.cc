// Completes the extension module: NumPy's interface table, and the animation command, which is not built here.
#define VERIF_NP_IMPORT
#include "pybind11/numpy.h"
#include "pymatching/sparse_blossom/diagram/animation_main.h"

extern "C" void verif_np_import(void) {
    if (_import_array() < 0)
        PyErr_Print();
}
int pm::main_animation(int, const char **) { throw std::invalid_argument("animation is not available"); }
