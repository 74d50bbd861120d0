"""The little of pandas that data_processing.py uses: columns of plain values, None counting as NaN in numbers."""
import math

nan = float("nan")


def missing(v):
    return v is None or (isinstance(v, float) and math.isnan(v))


def isna(v):
    return v.isna() if isinstance(v, Series) else missing(v)


isnull = isna


def notna(v):
    return ~v.isna() if isinstance(v, Series) else not missing(v)


class Series:
    def __init__(self, data=None, index=None):
        if isinstance(data, Series):
            data = data.values
        elif data is None:
            data = []
        elif not isinstance(data, (list, tuple)):
            data = [data]
        self.values = [nan if v is None else v for v in data]
        self.names = list(index) if index is not None else list(range(len(self.values)))

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, k):
        return self.values[self.names.index(k)]

    def __getattr__(self, k):
        if not k.startswith("_") and k in self.__dict__.get("names", ()):
            return self[k]
        raise AttributeError(k)

    def _with(self, other, f):
        o = other.values if isinstance(other, Series) else [other] * len(self.values)
        return Series([f(a, b) for a, b in zip(self.values, o)], self.names)

    def __eq__(self, o): return self._with(o, lambda a, b: a == b)
    def __ne__(self, o): return self._with(o, lambda a, b: a != b)
    def __lt__(self, o): return self._with(o, lambda a, b: a < b)
    def __gt__(self, o): return self._with(o, lambda a, b: a > b)
    def __le__(self, o): return self._with(o, lambda a, b: a <= b)
    def __ge__(self, o): return self._with(o, lambda a, b: a >= b)
    def __and__(self, o): return self._with(o, lambda a, b: a and b)
    def __or__(self, o): return self._with(o, lambda a, b: a or b)
    def __invert__(self): return Series([not a for a in self.values], self.names)
    __hash__ = None

    def isin(self, seq): return Series([a in list(seq) for a in self.values], self.names)
    def isna(self): return Series([missing(a) for a in self.values], self.names)
    isnull = isna
    def notna(self): return ~self.isna()
    notnull = notna
    def fillna(self, v): return Series([v if missing(a) else a for a in self.values], self.names)
    def tolist(self): return list(self.values)
    def unique(self): return list(dict.fromkeys(self.values))
    def present(self): return [a for a in self.values if not missing(a)]
    def dropna(self): return Series(self.present())
    def sum(self): return sum(self.present())
    def count(self): return len(self.present())
    def any(self): return any(self.values)
    def all(self): return all(self.values)

    def mean(self):
        v = self.present()
        return sum(v) / len(v) if v else nan

    def std(self):
        v = self.present()
        if len(v) < 2:
            return nan
        m = sum(v) / len(v)
        return math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1))

    def where(self, cond, other):
        o = other.values if isinstance(other, Series) else [other] * len(self.values)
        return Series([a if c else b for a, c, b in zip(self.values, cond, o)], self.names)

    def mask(self, cond, other):
        return self.where(~cond, other)

    def apply(self, f):
        got = [f(v) for v in self.values]
        if got and isinstance(got[0], Series):
            out = DataFrame()
            for i, n in enumerate(got[0].names):
                out[n] = [g.values[i] for g in got]
            return out
        return Series(got, self.names)

    map = apply


class DataFrame:
    def __init__(self, data=None, columns=None, index=None):
        self.__dict__["cols"] = {}
        self.__dict__["rownames"] = []
        if isinstance(data, dict):
            for k, v in data.items():
                self[k] = v
        elif data is not None:
            rows = [list(r) if isinstance(r, (list, tuple, Series)) else [r] for r in data]
            for i, c in enumerate(columns or range(len(rows[0]) if rows else 0)):
                self[c] = [r[i] for r in rows]
            if index is not None:
                self.__dict__["rownames"] = list(index)

    def __len__(self):
        return len(self.rownames)

    @property
    def index(self):
        return self.rownames

    @property
    def columns(self):
        return list(self.cols)

    @property
    def empty(self):
        return not len(self) or not self.cols

    @property
    def shape(self):
        return len(self), len(self.cols)

    def copy(self):
        out = DataFrame()
        out.__dict__["cols"] = {k: list(v) for k, v in self.cols.items()}
        out.__dict__["rownames"] = list(self.rownames)
        return out

    def __setitem__(self, k, v):
        if isinstance(k, list):
            if isinstance(v, DataFrame):
                parts = list(v.cols.values())
            else:
                raise NotImplementedError("assignment of several columns")
            if len(parts) != len(k):
                raise ValueError("Columns must be same length as key")
            for n, p in zip(k, parts):
                self[n] = p
            return
        if isinstance(v, DataFrame):
            if len(v.cols) != 1:
                raise ValueError("Cannot set a DataFrame with multiple columns to the single column " + str(k))
            v = list(v.cols.values())[0]
        if isinstance(v, (list, tuple, Series)):
            v = [nan if x is None else x for x in v]
        else:
            v = [v] * len(self)
        if self.cols and len(v) != len(self):
            raise ValueError("Length of values does not match length of index")
        if not self.cols:
            self.__dict__["rownames"] = list(range(len(v)))
        self.cols[k] = list(v)

    def __getitem__(self, k):
        if isinstance(k, Series):
            keep = [i for i, x in enumerate(k.values) if x]
            out = DataFrame()
            out.__dict__["cols"] = {n: [v[i] for i in keep] for n, v in self.cols.items()}
            out.__dict__["rownames"] = [self.rownames[i] for i in keep]
            return out
        if isinstance(k, list):
            out = self.copy()
            out.__dict__["cols"] = {n: out.cols[n] for n in k}
            return out
        return Series(self.cols[k], self.rownames)

    def __getattr__(self, k):
        if not k.startswith("_") and k in self.__dict__.get("cols", ()):
            return self[k]
        raise AttributeError(k)

    def __setattr__(self, k, v):
        if k == "columns":
            v = list(v)
            if len(v) != len(self.cols):
                raise ValueError("Length mismatch")
            self.__dict__["cols"] = dict(zip(v, self.cols.values()))
        elif k in self.cols:
            self[k] = v
        else:
            raise NotImplementedError("attribute " + k)

    def apply(self, f, axis=0):
        if axis not in (1, "columns"):
            raise NotImplementedError("apply by column")
        return Series([f(Series([v[i] for v in self.cols.values()], list(self.cols))) for i in range(len(self))],
                      self.rownames)

    def iterrows(self):
        for i, n in enumerate(self.rownames):
            yield n, Series([v[i] for v in self.cols.values()], list(self.cols))

    def transpose(self):
        out = DataFrame()
        for i, n in enumerate(self.rownames):
            out[n] = [v[i] for v in self.cols.values()]
        out.__dict__["rownames"] = list(self.cols)
        return out

    T = property(transpose)

    def to_csv(self, index=False):
        return "\n".join([",".join(map(str, self.cols))] + [
            ",".join(str(v[i]) for v in self.cols.values()) for i in range(len(self))]) + "\n"

    def __str__(self):
        return self.to_csv()

    __repr__ = __str__
