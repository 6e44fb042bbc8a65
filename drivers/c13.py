"""C13: configuration layering."""
import argparse, os, random, re, shutil, tempfile
from argparse import ArgumentParser, Namespace

import numpy as np
import yaml

from vlib.core import attempt
from forcepho import config as fc

ENVNAME, ENVVAL = "VPHO_DIR", "/env/val"
STORE = "/sd"
BOUNDS = ["sqrtq_range", "sersic_range", "rhalf_range", "pa_range", "dpos", "n_sig_flux", "n_pix", "pixscale"]


def mk(kind, t, name="", env=False):
    """The python value carrying token t for a setting of this kind; token 0 is the zero or empty value."""
    if t == 0 and kind in ("float", "str", "list", "slist"):
        return {"float": 0., "str": "", "list": [], "slist": []}[kind]
    if kind == "int":
        return t
    if kind == "float":
        return t + .5
    if kind == "bool":
        return t
    if kind in ("str", "store"):
        return (f"${ENVNAME}/v{t}" if env and kind == "str" else f"v{t}.h5" if kind == "store" else f"v{t}")
    if kind in ("list", "list2"):
        return [t + .5, t + 1.5]
    if kind == "slist":
        return [f"v{t}", f"v{t+1}"]
    if kind == "dtype":
        return {1: "float32", 2: "float64", 3: "int16"}[1 + t % 3]
    raise KeyError(kind)


def toks(kind, t):
    if t == 0 and kind in ("list", "slist"):
        return []
    if kind in ("list", "list2", "slist"):
        return [t, t + 1]
    if kind == "dtype":
        return [1 + t % 3]
    return [t]


def decode(kind, v):
    if v is None:
        return dict(t="null")
    r = dict(t="val", form="scalar", env=0, pre=0, v=[-7])
    try:
        if kind in ("int", "bool") and not isinstance(v, (str, list, np.ndarray)):
            r["v"] = [int(v)] if v == int(v) else [-8]
        elif kind == "float" and not isinstance(v, (str, list, np.ndarray)):
            r["v"] = [0] if v == 0 else [int(round(v - .5))] if abs(v - .5 - round(v - .5)) < 1e-9 else [-8]
        elif kind in ("str", "store"):
            if isinstance(v, str):
                r["env"] = v.count("$")
                r["pre"] = v.count(STORE + "/")
                m = re.fullmatch(r"(?:/sd/)*(?:/env/val/|\$VPHO_DIR/)?v(\d+)(\.h5)?", v)
                r["v"] = [int(m.group(1))] if m else [0] if v == "" else [-8]
        elif kind in ("list", "list2", "slist"):
            r["form"] = "array" if isinstance(v, np.ndarray) else "list"
            if kind == "slist":
                r["v"] = [int(str(x)[1:]) for x in v]
            else:
                r["v"] = [int(round(float(x) - .5)) for x in v]
        elif kind == "dtype":
            r["form"] = "dtype" if isinstance(v, type) else "scalar"
            r["v"] = [{"float32": 1, "float64": 2, "int16": 3}.get(np.dtype(v).name, -8)]
    except Exception:
        r["v"] = [-9]
    return r


NAME = dict(int=["n_int", "count"], float=["n_sig_flux", "x_float"], str=["s_path", "label"], store=["psfstorefile", "metastorefile"],
            list2=["sqrtq_range", "dpos"], dtype=["pix_dtype", "meta_dtype"], list=["rhalf_range", "warm"])


def layer(l, kind):
    if l[0] == "val":
        return ["val", toks(kind, l[1])]
    return [l[0]]


def run_case(case):
    rng = random.Random(case["rseed"])
    os.environ[ENVNAME] = ENVVAL
    work = tempfile.mkdtemp(prefix="vcfg_")
    try:
        parser = ArgumentParser()
        mode = case.get("mode", "parse")
        S = []
        used = set()
        zero = rng.choice([-1, 1, 2, 3])      # one of the values is zero or empty
        for k, s in enumerate(case["set"]):
            kind = s["kind"]
            name = s.get("name") or [n for n in NAME[kind] if n not in used][0]
            used.add(name)
            lay = {k: ([s[k][0], 0 if s[k][1] == zero else s[k][1]] + list(s[k][2:]) if s[k][0] == "val" else s[k]) for k in ("def", "file", "cli")}
            S.append(dict(s, name=name, **lay))
        storedir = case.get("storedir", False)
        typ = dict(int=int, float=float, str=str, store=str, list=float, list2=float, dtype=str, slist=str)
        nargs = dict(list="*", list2=2, slist="*")
        for s in S:
            if s["def"][0] == "absent":
                continue
            kw = dict(type=typ[s["kind"]])
            if s["kind"] in nargs:
                kw["nargs"] = nargs[s["kind"]]
            env = rng.random() < .5
            kw["default"] = None if s["def"][0] == "null" else mk(s["kind"], s["def"][1], env=env)
            parser.add_argument(f"--{s['name']}", **kw)
        y = {}
        for s in S:
            if s["file"][0] == "null":
                y[s["name"]] = None
            elif s["file"][0] == "val":
                y[s["name"]] = mk(s["kind"], s["file"][1], env=rng.random() < .5)
        if storedir:
            y["store_directory"] = STORE if rng.random() < .7 else STORE + "/"
        cfile = os.path.join(work, "c.yml")
        with open(cfile, "w") as f:
            if y:
                yaml.dump(y, f, default_flow_style=rng.choice([None, False]))
        deflt = rng.random() < .3
        parser.add_argument("--config_file", type=str, default=cfile if deflt else None)
        argv = ["prog"]
        chunks = []
        if not deflt:
            chunks.append(rng.choice([["--config_file", cfile], [f"--config_file={cfile}"]]))
        for s in S:
            if s["cli"][0] != "val" or s["def"][0] == "absent":
                continue
            v = mk(s["kind"], s["cli"][1], env=rng.random() < .5)
            words = [str(x) for x in v] if isinstance(v, list) else [str(v)]
            sp = s["cli"][2] if len(s["cli"]) > 2 else "space"
            flag = f"--{s['name']}"
            if sp == "abbrev":
                n = len(s["name"])
                others = [x["name"] for x in S if x is not s] + ["config_file", "help"]
                while n > 1 and not any(o.startswith(s["name"][:n - 1]) for o in others):
                    n -= 1
                flag = flag[:2 + rng.randint(n, len(s["name"]))]
            if sp == "equals" and len(words) == 1:
                chunks.append([f"{flag}={words[0]}"])
            elif sp == "twice":
                o = mk(s["kind"], 8)
                ow = [str(x) for x in o] if isinstance(o, list) else [str(o)]
                chunks.append([flag] + ow + [flag] + words)
            else:
                chunks.append([flag] + words)
        rng.shuffle(chunks)
        for ch in chunks:
            argv += ch
        ev = dict(op="parse", storedir=storedir)

        def go():
            if mode == "parse":
                return fc.parse_all(parser, argv)
            # read_config: a file (or dictionary) and a namespace that overrides it
            ns = Namespace(**{s["name"]: (None if s["cli"][0] != "val" else mk(s["kind"], s["cli"][1])) for s in S if s["cli"][0] != "absent" or rng.random() < .5})
            if rng.random() < .2:
                return fc.read_config(dict(y), ns)
            if all(s["cli"][0] != "val" for s in S) and rng.random() < .5:
                return fc.read_config(cfile)
            return fc.read_config(cfile, ns)
        if mode == "read":
            for s in S:
                s["def"] = ["absent"]
        r, exc = attempt(go)
        if exc:
            return dict(cfg={}, ev=[dict(ev, set=[], bounds=[], exc=exc)])
        ev["set"] = []
        for s in S:
            got = decode(s["kind"], getattr(r, s["name"])) if hasattr(r, s["name"]) else dict(t="absent")
            ev["set"].append(dict(name=s["name"], kind="list" if s["kind"] == "slist" else s["kind"], bound=s["name"] in BOUNDS,
                                  **{"def": layer(s["def"], s["kind"]), "file": layer(s["file"], s["kind"]), "cli": layer(s["cli"], s["kind"])}, got=got))
        kinds = {s["name"]: s["kind"] for s in S}
        ev["bounds"] = [dict(name=k, v=decode(kinds.get(k, "int"), v).get("v", [-7])) for k, v in r.bounds_kwargs.items()]
        return dict(cfg={}, ev=[ev])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def main_settings(rng, parser):
    """Settings of the package's own parsers, with tokens in every layer; the defaults are kept as they are (token 0)."""
    out = []
    for a in parser._actions:
        if a.dest in ("help",):
            continue
        kind = "dtype" if "dtype" in a.dest else "list2" if a.nargs == 2 else "slist" if a.nargs == "*" and a.type is str else \
            "list" if a.nargs == "*" and a.type is float else "ilist" if a.nargs == "*" else \
            "store" if a.dest.endswith("storefile") else dict([(int, "int"), (float, "float"), (str, "str")])[a.type]
        out.append((a, kind))
    return out


def run_main(case):
    """The package's own parser: every option on the command line, in the file, or defaulted."""
    rng = random.Random(case["rseed"])
    os.environ[ENVNAME] = ENVVAL
    work = tempfile.mkdtemp(prefix="vcfg_")
    try:
        parser = fc.main_config_parser(FITS=case["fits"]) if case["which"] == "main" else fc.preprocess_config_parser()
        acts = main_settings(rng, parser)
        parser.add_argument("--config_file", type=str, default=None)
        y, chunks, S = {}, [], []
        names = [a.dest for a, _ in acts]
        for a, kind in acts:
            isint = a.type is int
            dv = a.default
            s = dict(name=a.dest, kind=kind, file=["absent"], cli=["absent"])
            tf, tc = rng.randint(1, 90), rng.randint(101, 190)
            if kind != "ilist" and not (kind == "list2" and isint):
                tf, tc = rng.choice([tf, tf, tf, 0]), rng.choice([tc, tc, tc, 0])

            def value(t):
                if kind == "ilist" or (kind == "list2" and isint):
                    return [t, t + 1]
                return mk(kind, t, env=rng.random() < .5)
            if rng.random() < .45:
                s["file"] = ["null"] if rng.random() < .15 else ["val", tf]
                y[a.dest] = None if s["file"][0] == "null" else value(tf)
            if rng.random() < .35:
                s["cli"] = ["val", tc]
                v = value(tc)
                words = [str(x) for x in v] if isinstance(v, list) else [str(v)]
                n = len(a.dest)
                while n > 1 and not any(o.startswith(a.dest[:n - 1]) for o in names + ["config_file", "help"] if o != a.dest):
                    n -= 1
                flag = "--" + (a.dest if rng.random() < .6 or any(o.startswith(a.dest) for o in names if o != a.dest) else a.dest[:rng.randint(n, len(a.dest))])
                chunks.append([f"{flag}={words[0]}"] if len(words) == 1 and rng.random() < .4 else [flag] + words)
            S.append((a, s, isint, dv))
        storedir = rng.random() < .3
        if storedir:
            y["store_directory"] = STORE
        y["only_in_file"] = 77
        cfile = os.path.join(work, "c.yml")
        with open(cfile, "w") as f:
            yaml.dump(y, f)
        usefile = rng.random() < .9
        if usefile:
            chunks.append(["--config_file", cfile])
        rng.shuffle(chunks)
        argv = ["prog"] + [w for ch in chunks for w in ch]
        r, exc = attempt(fc.parse_all, parser, argv)
        ev = dict(op="parse", storedir=storedir and usefile)
        if exc:
            return dict(cfg={}, ev=[dict(ev, set=[], bounds=[], exc=exc)])
        ev["set"] = []
        bt = {}
        for a, s, isint, dv in S:
            if not usefile:
                s["file"] = ["absent"]
            kind = s["kind"]
            k2 = "ilist" if isint and kind in ("list2", "ilist") else kind
            win_def = s["cli"][0] != "val" and s["file"][0] != "val"

            def dec(v, kind=kind, k2=k2, win_def=win_def, dv=dv):
                if v is None:
                    return dict(t="null")
                if win_def:      # the package's own default: token 0 when equal
                    d = dv
                    if kind == "store" and ev["storedir"] and isinstance(d, str):
                        d = os.path.join(STORE, d)
                    if kind == "dtype":
                        same = v == np.dtype(d).type
                    elif isinstance(d, list):
                        same = isinstance(v, np.ndarray) and list(v) == list(d)
                    else:
                        same = v == d
                    form = "dtype" if kind == "dtype" else "array" if isinstance(d, list) else "scalar"
                    return dict(t="val", v=[0] if same else [-5], form=form, env=0, pre=1 if kind == "store" and ev["storedir"] else 0)
                if k2 == "ilist":
                    return dict(t="val", v=[int(x) for x in v], form="array" if isinstance(v, np.ndarray) else "list", env=0, pre=0)
                return decode(kind, v)
            got = dec(getattr(r, a.dest)) if hasattr(r, a.dest) else dict(t="absent")
            lk = "list" if kind in ("slist", "ilist") else kind
            lay = lambda l: ["val", toks("list" if k2 == "ilist" else kind, l[1])] if l[0] == "val" else [l[0]]
            ev["set"].append(dict(name=a.dest, kind=lk, bound=a.dest in BOUNDS, **{"def": ["null"] if dv is None else ["val", [0]]}, file=lay(s["file"]), cli=lay(s["cli"]), got=got))
            bt[a.dest] = dec
        ev["set"].append(dict(name="only_in_file", kind="int", bound=False, **{"def": ["absent"]}, file=["val", [77]] if usefile else ["absent"], cli=["absent"],
                              got=decode("int", r.only_in_file) if hasattr(r, "only_in_file") else dict(t="absent")))
        ev["bounds"] = [dict(name=k, v=bt[k](v).get("v", [-7]) if k in bt else [-7]) for k, v in r.bounds_kwargs.items()]
        return dict(cfg={}, ev=[ev])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_default(case):
    """A written default configuration file gives the defaults back."""
    work = tempfile.mkdtemp(prefix="vcfg_")
    try:
        p = os.path.join(work, "d.yml")
        _, exc = attempt(fc.default_config_file, p, FITS=case["fits"])
        ev = dict(op="parse", storedir=False, bounds=[], set=[])
        if exc:
            return dict(cfg={}, ev=[dict(ev, exc=exc)])
        parser = fc.main_config_parser(FITS=case["fits"])
        d = vars(parser.parse_args([]))
        r = vars(fc.read_config(p))
        r0 = vars(fc.parse_all(fc.main_config_parser(FITS=case["fits"]), ["prog"]))
        for k in d:
            same = k in r and (np.array_equal(r[k], r0[k]))
            form = "array" if isinstance(d[k], list) else "dtype" if "dtype" in k else "scalar"
            ev["set"].append(dict(name=k, kind={"array": "list", "dtype": "dtype", "scalar": "int"}[form], bound=False, **{"def": ["val", [1]]}, file=["absent"], cli=["absent"],
                                  got=dict(t="val", v=[1 if same else 0], form=form, env=0, pre=0)))
        return dict(cfg={}, ev=[ev])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    cases = []
    for kinds in c.q(['{"int", "str"}', '{"list2", "store"}'], ['{"int", "str", "float"}', '{"list2", "store"}', '{"dtype", "list"}']):
        hist = c.model("MCConfig", dict(Kinds=kinds), invariants=["Layered"], workers=4, timeout=900)
        c.extra["behaviours " + kinds] = len(hist)
        cap = c.q(3000, 30000)
        if len(hist) > cap:
            hist = rng.sample(hist, cap)
        cases += [dict(set=h, storedir=rng.random() < .4, rseed=rng.randint(0, 2 ** 31)) for h in hist]
    tr = c.execute(run_case, cases)
    c.validate("ConfigTrace", tr, cases, label="layer combinations of the model")
    cases = []
    for _ in range(c.q(800, 8000)):
        S = []
        for kind, names in NAME.items():
            for nm in rng.sample(names, rng.randint(0, 2)):
                d = rng.choice([["null"], ["val", rng.randint(1, 9)], ["val", rng.randint(1, 9)], ["absent"]])
                f = rng.choice([["absent"], ["null"], ["val", rng.randint(1, 9)], ["val", rng.randint(1, 9)]])
                cl = rng.choice([["absent"], ["absent"], ["val", rng.randint(1, 9), rng.choice(["space", "equals", "abbrev", "twice"])]])
                if d[0] == "absent":
                    cl = ["absent"]
                if kind == "dtype" and d[0] != "val" and f[0] != "val" and cl[0] != "val":
                    d = ["val", 1]
                if kind == "dtype" and f[0] != "val":
                    f = ["val", 2]
                S.append(dict(kind=kind, name=nm, **{"def": d}, file=f, cli=cl))
        cases.append(dict(set=S, storedir=rng.random() < .4, mode=rng.choice(["parse", "read"]), rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("ConfigTrace", tr, cases, label="random configurations")
    cases = [dict(which=rng.choice(["main", "main", "pre"]), fits=rng.random() < .5, rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(300, 3000))]
    tr = c.execute(run_main, cases)
    c.validate("ConfigTrace", tr, cases, label="the package's own parsers")
    cases = [dict(fits=True), dict(fits=False)]
    tr = c.execute(run_default, cases)
    c.validate("ConfigTrace", tr, cases, label="default configuration file")
    c.assumptions += ["options only, no positional arguments", "data-type settings have a value in some layer"]
