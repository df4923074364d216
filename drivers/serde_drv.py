"""Loads and dumps configs of generated classes. Records what the code returned."""
import os
from pathlib import Path
import hs
import hyperstate
from hyperstate import serde
import pyron

N = [0]


def path(ext="ron"):
    N[0] += 1
    return hs.workdir() / f"c{N[0]}.{ext}"


def handle(case):
    log = []
    ts = hs.Types(log)
    T = case["t"]
    clz = ts.build(T)
    kind = case["k"]
    if kind == "load":
        text = hs.ron(case["tree"]) if case["tree"] != ["nofile"] else None
        ovs = [hs.override(o) for o in case.get("ovs", [])]
        via = case["via"]
        ign = case.get("ign", False)
        f = None
        if via in ("load", "sm") and text is not None:
            f = path()
            f.write_text(text)

        def go():
            if via == "loads":
                return hyperstate.loads(clz, text, overrides=ovs or None, ignore_extra_fields=ign)
            if via == "load":
                return hyperstate.load(clz, f, overrides=ovs or None)
            sm = hyperstate.StateManager(clz, clz, lambda c, ctx: c, init_path=f, overrides=ovs, ignore_extra_fields=ign)
            return sm.config
        r = hs.attempt(lambda: hs.project(go()))
        unread = f is not None and f.read_text() != text
        if f is not None:
            f.unlink()
        return {**case, "r": r, "log": log, "applied": [i for i in log if i.startswith(T[1] + ":")], "touched": unread, "text": text, "ovtext": ovs}
    if kind == "dump":
        v = ts.value(T, case["v"])
        given = hs.project(v)
        elide = case["elide"]

        def go():
            if case["via"] == "dumps":
                return hyperstate.dumps(v, elide_defaults=elide)
            f = path()
            hyperstate.dump(v, f, elide_defaults=elide)
            text = f.read_text()
            f.unlink()
            return text
        d = hs.attempt(go)
        if d[0] != "ok":
            return {**case, "d": d, "tree": ["none"], "back": ["err", "no dump"], "same": True, "text": ""}
        text = d[1]
        tr = hs.attempt(lambda: hs.tree(pyron.loads(text, preserve_class_names=True)))
        back = hs.attempt(lambda: hs.project(hyperstate.loads(clz, text)))
        return {**case, "d": ["ok"], "tree": tr[1] if tr[0] == "ok" else ["unparsed"], "back": back,
                "same": hs.project(v) == given, "text": text}
    raise ValueError(kind)


hs.run(handle)
