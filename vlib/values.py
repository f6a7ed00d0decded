"""Generated values: JSON-able specifications, their construction, strict comparison and a stable digest."""
import collections
import datetime
import decimal
import enum
import fractions
import hashlib
import math
import struct
import types

import numpy as np


class Point:
    """A plain user class."""

    def __init__(self, **kw):
        self.__dict__.update(kw)


class Slotted:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __reduce__(self):
        return (Slotted, (self.a, self.b))


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyInt(int):
    pass


class MyStr(str):
    pass


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


NT = collections.namedtuple("NT", "x y")
_CLS = {"Point": Point, "MyList": MyList, "MyDict": MyDict, "MyInt": MyInt, "MyStr": MyStr}


def _seeded(nbytes, seed):
    """Deterministic pseudo-random bytes, cheap."""
    if nbytes == 0:
        return b""
    rng = np.random.RandomState(seed & 0x7FFFFFFF)
    return rng.bytes(nbytes)


def make_array(dtype, shape, order, seed):
    dt = np.dtype(dtype)
    n = int(np.prod(shape)) if len(shape) else 1
    rng = np.random.RandomState(seed & 0x7FFFFFFF)
    if dt.kind == "f":
        a = rng.standard_normal(n).astype(dt)
    elif dt.kind == "b":
        a = rng.randint(0, 2, n).astype(dt)
    elif dt.kind in "iu":
        a = rng.randint(0, 100, n).astype(dt)
    elif dt.kind == "c":
        a = (rng.standard_normal(n) + 1j * rng.standard_normal(n)).astype(dt)
    elif dt.kind == "O":
        a = np.array([None] * n, dtype=object)
        for i in range(n):
            a[i] = [i, str(i)] if i % 2 else i
    elif dt.kind == "U":
        a = np.array([chr(97 + int(x)) * 3 for x in rng.randint(0, 20, n)] or [], dtype=dt)
    elif dt.kind == "M":
        a = rng.randint(0, 10**6, n).astype("datetime64[s]").astype(dt)
    elif dt.names:
        a = np.zeros(n, dtype=dt)
        for nm in dt.names:
            a[nm] = rng.randint(0, 50, n)
    else:
        raise ValueError(dtype)
    a = a.reshape(shape)
    if order == "F":
        a = np.asfortranarray(a)
    elif order == "strided" and a.ndim >= 1:
        b = np.empty((a.shape[0] * 2,) + a.shape[1:], dtype=dt)
        b[::2] = a
        b[1::2] = a
        a = b[::2]
    elif order == "ro":
        a.setflags(write=False)
    return a


MARK = "vp:mark:"


def marked(form, size):
    """A value whose bytes can be recognised in memory."""
    n = max(size, 2000)
    b = (MARK.encode() * (n // len(MARK) + 1))[:n]
    if form == "bytes":
        return b
    if form == "arr":
        return np.frombuffer(b, dtype="uint8").copy()
    if form == "list":
        return [np.frombuffer(b, dtype="uint8").copy(), b]
    return Point(f0=np.frombuffer(b, dtype="uint8").copy())


def marked_in_memory():
    """How many buffers with the mark some container of this process refers to."""
    import gc

    gc.collect()
    gc.unfreeze()
    pat = MARK.encode() * 3
    seen = set()
    for obj in gc.get_objects():
        for r in gc.get_referents(obj):
            t = type(r)
            if t is bytes or t is bytearray:
                if len(r) >= 1900 and id(r) not in seen and pat in r:
                    seen.add(id(r))
            elif t is np.ndarray:
                if r.nbytes >= 1900 and id(r) not in seen and pat in r.tobytes():
                    seen.add(id(r))
            elif t is memoryview or t.__name__ == "memory" or t.__name__ == "buffer":
                try:
                    if 1900 <= len(r) < 50000 and id(r) not in seen and pat in bytes(r):  # not the shared window itself
                        seen.add(id(r))
                except Exception:
                    pass
    return len(seen)


def build(spec):
    k = spec[0]
    if k == "none":
        return None
    if k == "bool":
        return bool(spec[1])
    if k == "int":
        return int(spec[1])
    if k == "float":
        return float(spec[1])
    if k == "complex":
        return complex(float(spec[1]), float(spec[2]))
    if k == "str":
        return spec[1]
    if k == "bytes":
        return bytes.fromhex(spec[1])
    if k == "bytearray":
        return bytearray(bytes.fromhex(spec[1]))
    if k == "bigbytes":
        return _seeded(spec[1], spec[2])
    if k == "marked":
        return marked(spec[1], spec[2])
    if k == "bigstr":
        return "".join(chr(97 + b % 26) for b in _seeded(spec[1], spec[2]))
    if k == "list":
        return [build(s) for s in spec[1]]
    if k == "tuple":
        return tuple(build(s) for s in spec[1])
    if k == "dict":
        return {build(a): build(b) for a, b in spec[1]}
    if k == "set":
        return {build(a) for a in spec[1]}
    if k == "frozenset":
        return frozenset(build(a) for a in spec[1])
    if k == "arr":
        return make_array(spec[1], tuple(spec[2]), spec[3], spec[4])
    if k == "npscalar":
        return np.dtype(spec[1]).type(spec[2])
    if k == "df":
        import pandas as pd

        rng = np.random.RandomState(spec[3])
        d = {f"c{i}": (rng.randint(0, 99, spec[1]) if i % 2 else rng.standard_normal(spec[1])) for i in range(spec[2])}
        d["s"] = [f"v{i % 7}" for i in range(spec[1])]
        return pd.DataFrame(d)
    if k == "obj":
        return Point(**{n: build(v) for n, v in spec[1]})
    if k == "slotted":
        return Slotted(build(spec[1]), build(spec[2]))
    if k == "mylist":
        return MyList(build(s) for s in spec[1])
    if k == "mydict":
        return MyDict({build(a): build(b) for a, b in spec[1]})
    if k == "myint":
        return MyInt(spec[1])
    if k == "mystr":
        return MyStr(spec[1])
    if k == "nt":
        return NT(build(spec[1]), build(spec[2]))
    if k == "odict":
        return collections.OrderedDict((build(a), build(b)) for a, b in spec[1])
    if k == "enum":
        return Color.RED if spec[1] else Color.BLUE
    if k == "dt":
        return datetime.datetime(2020, 1, 1) + datetime.timedelta(seconds=spec[1])
    if k == "dec":
        return decimal.Decimal(spec[1]) / 7
    if k == "frac":
        return fractions.Fraction(spec[1], 7)
    if k == "range":
        return range(spec[1])
    if k == "slice":
        return slice(spec[1], None, 2)
    if k == "lam":
        n = spec[1]
        return lambda x=0: ("lam", n, x)
    if k == "local":
        class Local(Point):
            pass

        return Local(**{n: build(v) for n, v in spec[1]})
    if k == "type":
        return {"int": int, "Point": Point, "dict": dict}[spec[1]]
    raise ValueError(k)


def same(a, b):
    """Strict equality: same type, same contents, recursively."""
    if type(a).__qualname__.endswith("<locals>.Local"):
        return type(a).__qualname__ == type(b).__qualname__ and same(a.__dict__, b.__dict__)
    if type(a) is not type(b):
        return False
    if type(a) is types.FunctionType:
        return a() == b() and a(3) == b(3)
    if a is b:
        return True
    if isinstance(a, float):
        return struct.pack("d", a) == struct.pack("d", b) or (math.isnan(a) and math.isnan(b))
    if isinstance(a, complex):
        return same(a.real, b.real) and same(a.imag, b.imag)
    if isinstance(a, (list, tuple)):
        if isinstance(a, list) and type(a) is not list and getattr(a, "__dict__", None) != getattr(b, "__dict__", None):
            return False
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        ka, kb = list(a), list(b)
        return len(ka) == len(kb) and all(same(x, y) for x, y in zip(ka, kb)) and all(same(a[x], b[y]) for x, y in zip(ka, kb))
    if isinstance(a, (set, frozenset)):
        return digest(a) == digest(b)
    if isinstance(a, np.ndarray):
        if a.dtype != b.dtype or a.shape != b.shape:
            return False
        if a.dtype.hasobject:
            return all(same(x, y) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
        return a.tobytes() == b.tobytes()
    if isinstance(a, np.generic):
        return a.tobytes() == b.tobytes()
    if type(a).__module__.startswith("pandas"):
        return bool(a.equals(b)) and list(map(str, getattr(a, "dtypes", []))) == list(map(str, getattr(b, "dtypes", []))) \
            and list(getattr(a, "columns", [])) == list(getattr(b, "columns", []))
    if isinstance(a, Point):
        return same(a.__dict__, b.__dict__)
    if isinstance(a, Slotted):
        return same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, BaseException):
        return a.args == b.args
    return a == b


def _enc(v, out, depth=0):
    t = type(v)
    out.append(t.__name__)
    if v is None or isinstance(v, (bool, int, str, enum.Enum, range, slice, decimal.Decimal, fractions.Fraction,
                                   datetime.datetime, type)):
        out.append(repr(v) if not isinstance(v, type) else v.__qualname__)
    elif isinstance(v, float):
        out.append("nan" if math.isnan(v) else struct.pack("d", v).hex())
    elif isinstance(v, complex):
        _enc(v.real, out)
        _enc(v.imag, out)
    elif isinstance(v, (bytes, bytearray)):
        out.append(hashlib.md5(bytes(v)).hexdigest())
    elif isinstance(v, (list, tuple)):
        out.append(str(len(v)))
        for x in v:
            _enc(x, out)
    elif isinstance(v, dict):
        out.append(str(len(v)))
        for k, x in v.items():
            _enc(k, out)
            _enc(x, out)
    elif isinstance(v, (set, frozenset)):
        out.extend(sorted(digest(x) for x in v))
    elif isinstance(v, np.ndarray):
        out.append(str(v.dtype) + str(v.shape))
        if v.dtype.hasobject:
            for x in v.ravel().tolist():
                _enc(x, out)
        else:
            out.append(hashlib.md5(v.tobytes()).hexdigest())
    elif isinstance(v, np.generic):
        out.append(v.tobytes().hex())
    elif type(v).__module__.startswith("pandas"):
        for c in v.columns:
            out.append(str(c) + str(v[c].dtype))
            arr = v[c].to_numpy()
            out.append(hashlib.md5(arr.tobytes() if not arr.dtype.hasobject else repr(arr.tolist()).encode()).hexdigest())
    elif isinstance(v, types.FunctionType):
        out.append(repr((v(), v(3))))
    elif isinstance(v, Point):
        _enc(v.__dict__, out)
    elif isinstance(v, Slotted):
        _enc([v.a, v.b], out)
    else:
        out.append(repr(v))


def digest(v):
    out = []
    _enc(v, out)
    return hashlib.md5("\x00".join(out).encode("utf-8", "surrogatepass")).hexdigest()


def brief(v, n=160):
    try:
        if isinstance(v, np.ndarray):
            s = f"ndarray({v.dtype},{v.shape},md5={hashlib.md5(v.tobytes()).hexdigest()[:8]})"
        elif isinstance(v, (bytes, bytearray)) and len(v) > 40:
            s = f"{type(v).__name__}[{len(v)}] md5={hashlib.md5(bytes(v)).hexdigest()[:8]}"
        elif isinstance(v, BaseException):
            s = f"{type(v).__name__}({v.args!r})"
        elif isinstance(v, (list, tuple)) and not hasattr(v, "_fields"):
            s = type(v).__name__ + "[" + ", ".join(brief(x, 60) for x in v[:12]) + ("..." if len(v) > 12 else "") + "]"
        else:
            s = repr(v)
    except Exception as e:
        s = f"<unprintable {type(v).__name__}: {type(e).__name__}>"
    return s if len(s) <= n else s[: n - 3] + "..."
