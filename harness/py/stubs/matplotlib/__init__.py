"""Stand-in: PyMatching imports matplotlib for drawing only."""
class MatplotlibDeprecationWarning(DeprecationWarning):
    pass
