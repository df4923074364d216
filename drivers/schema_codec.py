"""Schemas as types of the specification."""
import dataclasses, enum
import hs
from hyperstate.schema import types as st


def plain(x):
    """Values in schemas and rules as trees"""
    if isinstance(x, enum.Enum):
        return plain(x.value)
    if isinstance(x, tuple) and hasattr(x, "_fields"):
        return ["obj", type(x).__name__, [[k, plain(v)] for k, v in x._asdict().items()]]
    if dataclasses.is_dataclass(x):
        return ["obj", type(x).__name__, [[k, plain(getattr(x, k))] for k in x.__dataclass_fields__]]
    if isinstance(x, list):
        return ["list", [plain(y) for y in x]]
    if isinstance(x, tuple):
        return ["tup", [plain(y) for y in x]]
    if isinstance(x, dict):
        if "!__name__" in x:
            return ["obj", x["!__name__"], [[hs.enc(str(k)), plain(v)] for k, v in x.items() if k != "!__name__"]]
        return ["dict", [[hs.enc(str(k)), plain(v)] for k, v in x.items()]]
    return hs.tree(x)


def etype(t):
    if isinstance(t, st.Primitive):
        return [t.type]
    if isinstance(t, st.List):
        return ["list", etype(t.inner)]
    if isinstance(t, st.Tuple):
        return ["tup", [etype(x) for x in t.inner]]
    if isinstance(t, st.Dict):
        return ["dict", etype(t.val)] if t.key == st.Primitive("str") else ["odd", repr(t)]
    if isinstance(t, st.Union):
        return ["union", [etype(x) for x in t.types]]
    if isinstance(t, st.Option):
        return ["opt", etype(t.type)]
    if isinstance(t, st.Enum):
        return ["enum", t.name, [[k, hs.tree(v)] for k, v in t.variants.items()]]
    if isinstance(t, st.Literal):
        return ["lit", [hs.tree(v) for v in t.allowed_values]]
    if isinstance(t, st.Struct):
        fs = [[n, etype(f.type), bool(f.has_default), plain(f.default)] for n, f in t.fields.items()]
        if any(n != f.name for n, f in t.fields.items()):
            return ["odd", "names"]
        return ["st", t.name, fs, -1 if t.version is None else t.version, []]
    return ["odd", repr(t)]


def byrepr(xs):
    return [hs.tree(x) for x in sorted(xs, key=repr)]
