"""Obligations of one rule, checked again on behalf of another property."""


class Renamed:
    """Stands for a checker; keeps the obligations that `name` maps to another key and drops those it maps to None."""

    def __init__(self, c, name):
        self._c, self._name = c, name

    def __getattr__(self, n):
        return getattr(self._c, n)

    def section(self, key):
        return self._c.section(self._name(key) or key)

    def require(self, key, good, *a):
        k = self._name(key)
        if k:
            self._c.require(k, good, *a)

    def ok(self, key, *a):
        k = self._name(key)
        if k:
            self._c.ok(k, *a)

    def bad(self, key, *a):
        k = self._name(key)
        if k:
            self._c.bad(k, *a)

    def unknown(self, key, *a):
        k = self._name(key)
        if k:
            self._c.unknown(k, *a)
