"""Series and Index of pandas, as far as the repository uses them: trusted contracts on the dependency, written in the
subset of Python that pv interprets.  Values are numpy arrays; labels are not aligned (operations between two series are
not modelled)."""
import numpy as np


class Index(object):
    def __init__(self, values):
        self.values = values

    def __len__(self):
        return len(self.values)

    def __add__(self, other):
        return Index(self.values + other)

    def __sub__(self, other):
        return Index(self.values - other)

    def __mul__(self, other):
        return Index(self.values * other)

    def __truediv__(self, other):
        return Index(self.values / other)

    def __gt__(self, other):
        return self.values > other

    def __ge__(self, other):
        return self.values >= other

    def __lt__(self, other):
        return self.values < other

    def __le__(self, other):
        return self.values <= other

    def __getitem__(self, key):
        return Index(self.values[key])

    def min(self):
        return np.min(self.values)

    def max(self):
        return np.max(self.values)


class Series(object):
    def __init__(self, data=None, index=None, name=None):
        self.values = as_array(data)
        if isinstance(index, Index):
            self._index = index
        else:
            self._index = Index(as_array(index).copy())
        if len(self.values) != len(self._index):
            raise ValueError('Length of values does not match length of index')
        self.name = name

    @property
    def index(self):
        return self._index

    @index.setter
    def index(self, new):
        if not isinstance(new, Index):
            new = Index(as_array(new).copy())
        if len(new) != len(self._index):
            raise ValueError('Length mismatch')
        self._index = new

    def __len__(self):
        return len(self.values)

    def copy(self, deep=True):
        if deep:
            return Series(self.values.copy(), self._index, self.name)
        return Series(self.values, self._index, self.name)

    def view(self, dtype=None):
        return Series(self.values, self._index, self.name)

    def abs(self):
        return Series(np.abs(self.values), self._index, self.name)

    def __abs__(self):
        return self.abs()

    def idxmin(self):
        return self._index.values[np.argmin(self.values)]

    def idxmax(self):
        return self._index.values[np.argmax(self.values)]

    def min(self):
        return np.min(self.values)

    def max(self):
        return np.max(self.values)

    def notnull(self):
        return np.logical_not(np.isnan(self.values))

    def __add__(self, other):
        return Series(self.values + other, self._index, self.name)

    def __sub__(self, other):
        return Series(self.values - other, self._index, self.name)

    def __rsub__(self, other):
        return Series(other - self.values, self._index, self.name)

    def __mul__(self, other):
        return Series(self.values * other, self._index, self.name)

    def __rmul__(self, other):
        return Series(self.values * other, self._index, self.name)

    def __truediv__(self, other):
        return Series(self.values / other, self._index, self.name)

    def __iadd__(self, other):
        self.values += other
        return self

    def __isub__(self, other):
        self.values -= other
        return self

    def __imul__(self, other):
        self.values *= other
        return self

    def __itruediv__(self, other):
        self.values /= other
        return self

    def append(self, to_append):
        return Series(np.concatenate([self.values, to_append.values]),
                      Index(np.concatenate([self._index.values, to_append.index.values])))

    def sort_index(self, axis=0, ascending=True):
        keys, values = sorted_together(self._index.values, self.values, ascending)
        return Series(values, Index(keys), self.name)

    def __getitem__(self, key):
        if not isinstance(key, np.ndarray):
            raise NotImplementedError('selection by label')
        return Series(self.values[key], Index(self._index.values[key]), self.name)


def as_array(data):
    if isinstance(data, Index):
        return data.values
    if isinstance(data, Series):
        return data.values
    if isinstance(data, np.ndarray):
        return data
    return np.array(data)


def sorted_together(keys, values, ascending):
    """Keys in order with their values: modelled by pv."""
    raise NotImplementedError


class DataFrame(object):
    """Rows given as series: only what becomes of its transpose."""

    def __init__(self, data):
        self.rows = list(data)

    @property
    def T(self):
        return Transposed(self.rows)


class Transposed(object):
    """Columns given as series, rows for all of their labels (each label once in every series)."""

    def __init__(self, series):
        self.series = series

    def mean(self, axis=0, skipna=True):
        if axis != 1 or skipna:
            raise NotImplementedError('mean that skips missing labels')
        return Means(self.series)


class Means(object):
    """Mean of the series for every label of any of them, not defined where it is missing in some."""

    def __init__(self, series):
        self.series = series

    def dropna(self):
        labels = self.series[0].index.values
        common = np.array([all(np.any(s.index.values == y) for s in self.series) for y in labels])
        kept = labels[common]
        means = np.array([np.mean([s.values[np.argmin(np.abs(s.index.values - y))] for s in self.series]) for y in kept])
        return Series(means, Index(kept))
