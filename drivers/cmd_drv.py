"""Starts programs through the command line entry points."""
import contextlib, io, re, sys, traceback
from dataclasses import dataclass
import hs
from hyperstate import command, stateful_command

WORK = hs.workdir()


@dataclass
class State:
    step: int


def mentions(out, ov):
    path, x = ov
    text = hs.override(ov)
    names = [text, *path]
    if "=" in text:
        names.append(text.split("=", 1)[1])
    return any(n and n in out for n in names)


def words(x):
    """The keys and values in a tree."""
    if x[0] in ("obj", "dict"):
        for k, v in x[-1]:
            yield k
            yield from words(v)
    elif x[0] in ("list", "tup"):
        for y in x[1]:
            yield from words(y)
    else:
        yield str(x[1]) if x[0] in ("str", "unit") else hs.ron(x)


def named(out, field, file):
    """Whether the field, or something in its value, is named."""
    own = [v for k, v in file[1][-1] if k == field] if file[0] == "tree" and file[1][0] in ("obj", "dict") else []
    ws = [field] + [w for v in own for w in words(v)]
    return any(re.search(rf"(?<!\w){re.escape(w)}(?!\w)", out) for w in ws if w)


def handle(case):
    hs.clear(WORK)
    clz = hs.Types([]).build(case["t"])
    args = []
    config = []
    path = WORK / "my config.ron"
    if case["file"][0] != "none":
        config = ["--config", str(path)] if case["style"] % 2 else [f"--config={path}"]
        if case["file"][0] == "tree":
            path.write_text(hs.ron(case["file"][1]))
        elif case["file"][0] == "text":
            path.write_text(case["file"][1])
    if case["resume"]:
        config += ["--resume-from", str(WORK / "some-checkpoint")]
    if case["verbose"]:
        config += ["-v"] if case["style"] % 3 else ["--verbose"]
    ovs = [hs.override(o) for o in case["ovs"]]
    args = ovs + config if case["style"] >= 2 else config + ovs
    if case["info"][0] != "none":
        args += ["--hps-info"] if case["info"][0] == "all" else ["--hps-info", case["info"][1]]
    calls = []
    token = object()

    if case["stateful"]:
        @stateful_command(clz, State, lambda cfg, ctx: State(0))
        def main(sm):
            sm.state
            calls.append(hs.project(sm.config))
            return token
    else:
        @command(clz)
        def main(cfg):
            calls.append(hs.project(cfg))
            return token

    out = io.StringIO()
    err = []
    old = sys.argv
    sys.argv = ["prog", *args]

    def go():
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                return ["returned", main() is token]
        except SystemExit as e:
            if isinstance(e.code, str):
                out.write(e.code)
            return ["exit", 0 if e.code is None else e.code if isinstance(e.code, int) else 1]
        except hs.Hang:
            raise
        except Exception as e:
            out.write(traceback.format_exc())
            while e is not None:
                err.append(str(e))
                e = e.__cause__ or e.__context__
            return ["raised"]
    try:
        r = hs.attempt(go)
    finally:
        sys.argv = old
    text = re.sub(r"\x1b\[[0-9;]*m", "", out.getvalue())
    end = r[1] if r[0] == "ok" else ["raised"]
    told = re.sub(r"\x1b\[[0-9;]*m", "", "\n".join(err)) if end == ["raised"] else text
    return {**case, "argv": args, "calls": calls, "end": end, "said": bool(text.strip()), "names": [mentions(told, o) for o in case["ovs"]], "fields": [named(told, f[0], case["file"]) for f in case["t"][2]], "out": hs.enc(text[:600])}


hs.run(handle)
