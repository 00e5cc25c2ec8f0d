"""Symbolic counterpart of ``float`` as a base class: classes of the repository that subclass float get this base when loaded
for verification.  The represented number is a symbolic real; methods the class does not define are those of symbolic reals,
which return plain numbers, as float's methods do."""
from .terms import S, zz


class FloatBase(S):
    def __new__(cls, v=0.0, *a, **k):
        if a or k:
            raise TypeError("float expected at most 1 argument")
        new = object.__new__(cls)
        S.__init__(new, "f", zz(v, "f"))
        return new

    def __init__(self, *a, **k):
        pass

    def __hash__(self):
        return 7

    def __reduce__(self):
        return S.__reduce__(self)
