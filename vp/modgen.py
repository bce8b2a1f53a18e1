"""Random decorated modules (function modifiers): declarations as read by spec/Modifiers.tla, and the same declarations
rendered as real Python source using the public decorators."""
import random

from vp import prog

SPEC = [None, 0, False, "", 0.0, "str", 1.5, True]
NS = len(SPEC)
MODS = [9001, 9001, 9001, 97, 31]
CONDVALS = [0, 3, 5, 8, 9, 10, 11]            # codes whose objects are pairwise unequal in Python (0 = None = absent)
_STATE = {"kid": {}, "log": []}


# ---------------------------------------------------------------- values
def dec(code):
    return SPEC[code] if code < NS else code


def _scal(v):
    if v is None:
        return 0
    if isinstance(v, bool):
        return 7 if v else 2
    if isinstance(v, str):
        return {"": 3, "str": 5}.get(v, -5)
    if isinstance(v, float):
        return {0.0: 4, 1.5: 6}.get(v, -6)
    if isinstance(v, int):
        return 1 if v == 0 else (v if v >= NS else -7 - v)
    return None


def _h(s):
    return s[1] if s[0] == 0 else sum(x * ((i + 1) ** 2 + 3) for i, x in enumerate(s)) % 9973


def enc(v):
    t = type(v).__name__
    if t == "Series":
        v = v.iloc[0]
        v = v.item() if hasattr(v, "item") else v
    elif t == "DataFrame":
        v = {c: (lambda x: x.item() if hasattr(x, "item") else x)(v[c].iloc[0]) for c in v.columns}
    elif hasattr(v, "item") and hasattr(v, "dtype"):
        v = v.item()
    c = _scal(v)
    if c is not None:
        return [0, c]
    if isinstance(v, (list, tuple)):
        return [1] + [_h(enc(x)) for x in v]
    if isinstance(v, dict):
        out = [2]
        for k in sorted(v, key=lambda k: _STATE["kid"].get(k, -1)):
            out += [_STATE["kid"].get(k, -1), _h(enc(v[k]))]
        return out
    return [9, 9]          # something no specification value equals


def decv(s):
    assert s[0] == 0
    return dec(s[1])


def call(f, args, c, k, m, out=(), df=False):
    """Body of every generated function."""
    a = {p: enc(v) for p, v in args.items()}
    _STATE["log"].append(dict(ev="call", f=f, args=a))
    s = (c + sum(k.get(p, 1) * _h(v) for p, v in a.items())) % m
    if not out:
        return dec(s)
    d = {key: dec((s + 37 * (i + 1)) % m) for i, key in enumerate(out)}
    if df:
        import pandas as pd
        return pd.DataFrame({key: [v] for key, v in d.items()})
    return d


async def acall(*a, **kw):
    import asyncio
    await asyncio.sleep(0)
    return call(*a, **kw)


# ---------------------------------------------------------------- generation
class Gen:
    def __init__(self, rng, mix, async_=False):
        self.rng, self.mix, self.async_ = rng, mix, async_
        names = list(prog.NAMES)
        rng.shuffle(names)
        self.pool = [n for n in names if n not in ("final", "inputs_", "config_", "raw")]
        self.n = 0
        self.kid = {}
        self.scopes, self.again, self.twice = [set()], [], set()
        self.leaf = [self.fresh(True) for _ in range(3)]
        self.maybe = [self.fresh(True) for _ in range(2)]     # only ever used with a default
        self.ckeys = ["ck1", "ck2", "ck3"]
        self.cfg = {}
        self.cdef = {}                                    # default of a configuration parameter of a @resolve lambda
        self.protos = []                                  # steps that other steps may be derived from
        self.helpers = []                                 # function records rendered once per module
        self.avail = list(self.leaf)
        self.nofinal = []                                 # what the parent of filled fields contains is left open

    def fresh(self, unique=False):
        """a name not used in this scope; names of other scopes (inside or outside of subdags) may come again"""
        again = [] if unique or self.mix != "subdag" else [x for x in self.again if x not in self.scopes[-1]]
        if again and self.rng.random() < .35:
            x = self.rng.choice(again)
            self.twice.add(x)
        else:
            if not self.pool:
                self.n += 1
                x = f"w{self.n}"
            else:
                x = self.pool.pop()
            if not unique:
                self.again.append(x)
        self.scopes[-1].add(x)
        return x

    def key(self, name):
        self.kid.setdefault(name, len(self.kid) + 3)
        return name

    def code(self):
        return self.rng.choice([self.rng.randrange(NS), self.rng.randrange(NS, 60), self.rng.randrange(NS, 8000)])

    def val(self):
        return [0, self.code()]

    def fnrec(self, f, params, opt=None, out=()):
        rng = self.rng
        for o in out:
            self.key(o)
        return dict(f=f, params=list(params), opt=dict(opt or {}), c=rng.randrange(1, 900),
                    k={p: rng.randrange(1, 900) for p in params}, m=rng.choice(MODS), out=list(out))

    def rand_params(self, avail, kmin=0, kmax=3, p_opt=.25, extra_maybe=True):
        rng = self.rng
        k = rng.randint(kmin, kmax)
        ps = rng.sample(avail, min(k, len(avail)))
        opt = {}
        for p in ps:
            if rng.random() < p_opt:
                opt[p] = self.val()
        if extra_maybe and rng.random() < .25 and self.maybe:
            p = rng.choice(self.maybe)
            if p not in ps:
                ps.append(p)
                opt[p] = self.val()
        ps.sort(key=lambda p: p in opt)        # required first (stable): Python syntax
        return ps, opt

    def cond(self, keys=None):
        rng = self.rng
        t = rng.choice(["when", "when_not", "when_in", "when_not_in"])
        ks = rng.sample(keys or self.ckeys, rng.choice([1, 1, 2]))
        vals = []
        for _ in ks:
            vals.append([rng.choice(CONDVALS)] if t in ("when", "when_not")
                        else [rng.choice(CONDVALS) for _ in range(rng.choice([1, 2, 3]))])
        return dict(t=t, keys=ks, vals=vals)

    def binding(self, avail, allow_group=True, allow_cfg=False, none_src=()):
        """a binding for a parameter; source names are taken without replacement within one parameterisation"""
        rng = self.rng
        srcs = [a for a in avail if a not in none_src]
        t = rng.choice(["src", "src", "lit", "lit"] + (["list", "dict"] if allow_group else [])
                       + (["cfglit", "cfgsrc"] if allow_cfg else []))
        if t == "src" and not srcs:
            t = "lit"
        if t == "src":
            return dict(t="src", s=rng.choice(srcs))
        if t == "lit":
            return dict(t="lit", v=self.val())
        if t == "cfglit":
            key = rng.choice(self.ckeys)
            return dict(t="cfglit", key=key, d=self.cdef.setdefault(key, self.code()))
        if t == "cfgsrc":
            if not srcs:
                return dict(t="lit", v=self.val())
            key = rng.choice(self.ckeys)
            return dict(t="cfgsrc", key=key, names=rng.sample(srcs, min(len(srcs), 3)),
                        d=self.cdef.setdefault(key, self.code()))
        n = rng.choice([1, 2, 3])
        es = []
        for _ in range(n):
            left = [s for s in srcs if s not in [x.get("s") for x in es]]
            es.append(dict(t="src", s=rng.choice(left)) if left and rng.random() < .6 else dict(t="lit", v=self.val()))
        if t == "list":
            return dict(t="list", es=es)
        return dict(t="dict", ks=[self.key(k) for k in rng.sample(["k1", "k2", "k3", "k4"], n)], es=es)

    # ---- helper functions (steps, replacing functions)
    def stepfn(self):
        rng = self.rng
        if self.helpers and rng.random() < .45:
            return rng.choice(self.helpers)
        nm = f"{rng.choice(['add', 'mul', 'norm', 'clip'])}{len(self.helpers)}"
        if rng.random() < .5:
            nm = "_" + nm
        npar = rng.choice([1, 2, 2, 3])
        ps = ["x", "y", "z"][:npar] if rng.random() < .6 else ["v", "amount", "y"][:npar]
        opt = {}
        if npar > 1 and rng.random() < .3:
            # a defaulted parameter nobody binds: its name matches nothing in the dataflow
            ps = ps + [f"dflt_{len(self.helpers)}"]
            opt[ps[-1]] = self.val()
        fn = self.fnrec(nm, ps, opt)
        fn["pyname"] = nm.lstrip("_")
        self.helpers.append(fn)
        return fn

    def step(self, avail, on=(), used=(), cur=None, step_ns=True, allow_cond=True):
        rng = self.rng
        srcs = set(avail) | ({cur} if cur else set())
        old = [s for s in self.protos if all(b["t"] != "src" or b["s"] in srcs for b in s["bs"].values())]
        proto = rng.choice(old) if old and rng.random() < .25 else None
        fn = self.stepfn() if proto is None else proto["fn"]
        bs = {} if proto is None else proto["bs"]
        for p in fn["params"][1:] if proto is None else ():
            if p in fn["opt"]:
                continue
            bs[p] = self.binding(avail + ([cur] if cur else []), allow_group=False)
        st = dict(fn=fn, bs=bs, conds=[], nm="", ns="...", on=list(on),
                  pos=[p for p in fn["params"][1:] if p in bs and rng.random() < .5], raw=rng.random() < .5)
        # positional arguments must be a prefix
        pref = []
        for p in fn["params"][1:]:
            if p in st["pos"]:
                pref.append(p)
            else:
                break
        st["pos"] = pref
        if proto:            # the same step object, refined differently
            st["pos"], st["raw"] = proto["pos"], proto["raw"]
            st["var"] = proto.setdefault("var", f"_proto{len(self.protos)}_{rng.randrange(10 ** 6)}")
        else:
            self.protos.append(st)
        if allow_cond and rng.random() < (.5 if self.mix == "cond" else .25):
            st["conds"] = [self.cond() for _ in range(rng.choice([1, 1, 2]))]
        if rng.random() < .3:
            st["nm"] = self.fresh(True)
            if step_ns and rng.random() < .6:
                st["ns"] = rng.choice(["", self.fresh() + "_ns"])
        return st

    # ---- declarations
    def base(self, name, ps, opt, out=()):
        f = name
        if name in self.twice:                            # what is called must be recognisable
            self.n += 1
            f = f"{name}_f{self.n}"
        return dict(name=name, fn=self.fnrec(f, ps, opt, out), conds=[], creator=dict(t="plain"), pins=[], exp=[],
                    trs=[], py=name, deco=[])

    def plain(self, avail, **kw):
        ps, opt = self.rand_params(avail, **kw)
        d = self.base(self.fresh(), ps, opt)
        return d, [d["name"]]

    def paramd(self, avail, resolve=False):
        rng = self.rng
        # parameters are named like nothing else, or like other values of the dataflow
        ps = rng.sample(["p1", "p2", "p3"] + (rng.sample(avail, min(2, len(avail))) if rng.random() < .5 else []),
                        rng.choice([1, 2, 3]))
        own = rng.sample([a for a in avail if a not in ps], min(len([a for a in avail if a not in ps]), rng.choice([0, 1])))
        params = ps + own
        opt = {p: self.val() for p in params if rng.random() < .3}
        params.sort(key=lambda p: p in opt)
        kind = rng.choice(["parameterize", "parameterize", "values", "sources", "inject", "inject", "parameterize"])
        if resolve:
            kind = rng.choice(["parameterize", "inject"])
        if kind == "values":
            params = ps[:1] + own
            opt = {p: v for p, v in opt.items() if p in params}
            params.sort(key=lambda p: p in opt)
            ps = ps[:1]
        out = [self.key(self.fresh()) for _ in range(rng.choice([2, 3]))] \
            if rng.random() < .15 and kind == "inject" else []
        d = self.base(self.fresh(), params, opt, out)
        d["kind"] = kind
        n = 1 if kind == "inject" else rng.choice([1, 2, 3])
        names = []
        for i in range(n):
            nm = d["name"] if (kind == "inject" or (i == 0 and rng.random() < .2)) else self.fresh()
            bs, taken = {}, set(own)
            for p in ps:
                if kind == "values":
                    b = dict(t="lit", v=self.val())
                elif kind == "sources":
                    left = [a for a in avail if a not in taken]
                    if not left:
                        continue
                    b = dict(t="src", s=rng.choice(left))
                else:
                    # an optional parameter may be re-pointed to something that is not supplied
                    may = [m for m in self.maybe if m not in taken] if p in opt else []
                    b = self.binding([a for a in avail if a not in taken], allow_cfg=resolve, allow_group=not resolve)
                    if b["t"] == "src" and may and rng.random() < .4:
                        b = dict(t="src", s=rng.choice(may))
                for e in ([b] if b["t"] == "src" else b.get("es", [])):
                    if e["t"] == "src":
                        taken.add(e["s"])
                if b["t"] == "cfgsrc":
                    taken.update(b["names"])
                bs[p] = b
            # a parameter nobody replaces is an ordinary dependency: it must be obtainable
            for p in ps:
                if p not in bs and p not in opt:
                    bs[p] = dict(t="lit", v=self.val()) if kind != "sources" else None
            if any(v is None for v in bs.values()):
                return self.plain(avail)
            if kind == "sources" and not bs:
                return self.plain(avail)
            # sometimes leave a defaulted parameter alone
            for p in list(bs):
                if p in opt and rng.random() < .2 and len(bs) > 1 and kind not in ("values",) and p not in taken:
                    del bs[p]
                    taken.add(p)
            d["exp"].append(dict(name=nm, b=bs))
            names.append(nm)
        # the same parameter is a list in one parameterisation => it is never a scalar in another (annotation)
        for p in ps:
            kinds = {o["b"][p]["t"] for o in d["exp"] if p in o["b"]}
            groups = kinds & {"list", "dict"}
            if groups and len(kinds) > 1:
                for o in d["exp"]:
                    if p in o["b"]:
                        o["b"][p] = dict(t="lit", v=self.val())
        d["names"] = names
        if out:
            d["trs"].append(dict(t="fields", keys=list(out), fill=[]))
            names = names + list(out)
        d["resolve"] = resolve
        return d, names

    def fields(self, avail, df=None):
        rng = self.rng
        df = (rng.random() < .25) if df is None else df
        ps, opt = self.rand_params(avail, 0, 2)
        out = [self.key(self.fresh()) for _ in range(rng.choice([2, 3, 4]))]
        d = self.base(self.fresh(), ps, opt, out)
        d["df"] = df
        want = rng.sample(out, rng.randint(1, len(out)))
        fill = []
        if rng.random() < .35:
            extra = [self.key(self.fresh()) for _ in range(rng.choice([1, 2]))]
            want += extra
            rng.shuffle(want)
            fill = self.val()
            if fill == [0, 0]:
                fill = [0, 1]
            if df:
                fill = [0, rng.randrange(NS, 90)]
        elif rng.random() < .08:
            want += [self.key(self.fresh())]        # never produced: whoever needs it fails
        d["trs"].append(dict(t="fields", keys=want, fill=fill))
        if fill:
            self.nofinal.append(d["name"])
        return d, want + ([d["name"]] if not fill else [])

    def pec(self, avail):
        """parameterize_extract_columns"""
        rng = self.rng
        ps = ["p1", "p2"][:rng.choice([1, 2])]
        ncol = rng.choice([1, 2, 3])
        out = [self.key(self.fresh()) for _ in range(ncol)]
        d = self.base(self.fresh(), ps, {}, out)
        d["df"], d["kind"] = True, "pec"
        names = []
        d["reassign"] = rng.random() < .7
        n = rng.choice([1, 2]) if d["reassign"] else 1
        for i in range(n):
            cols = [self.key(self.fresh()) for _ in range(ncol)] if d["reassign"] else list(out)
            bs, taken = {}, set()
            for p in ps:
                b = self.binding([a for a in avail if a not in taken], allow_group=False)
                if b["t"] == "src":
                    taken.add(b["s"])
                bs[p] = b
            d["exp"].append(dict(name=f"{d['name']}__{i}", b=bs, out=cols))
            names += cols
        return d, names

    def does(self, avail):
        rng = self.rng
        ps, opt = self.rand_params(avail, 1, 3)
        d = self.base(self.fresh(), ps, opt)
        mp = {}
        if rng.random() < .6:
            orig = rng.sample(ps, rng.randint(1, len(ps)))
            tgt = [f"q{i}" for i in range(len(orig))]
            if rng.random() < .4 and len(orig) > 1:      # a mapping that permutes names
                tgt = orig[1:] + orig[:1]
            mp = dict(zip(tgt, orig))
        rparams = [q for q in mp] + [p for p in ps if p not in mp.values()]
        ropt = {}
        kw = rng.random() < .4
        rf = self.fnrec(f"_repl{len(self.helpers)}_{d['name']}", rparams, {})
        if not kw and rng.random() < .3:
            rf["params"].append("extra_q")
            rf["k"]["extra_q"] = 7
            ropt["extra_q"] = self.val()
        rf["opt"] = ropt
        d["creator"] = dict(t="does", fn=rf, map=mp)
        d["kw"] = kw
        return d, [d["name"]]

    def pipein(self, avail):
        rng = self.rng
        ps, opt = self.rand_params(avail, 1, 3, p_opt=0, extra_maybe=rng.random() < .3)
        d = self.base(self.fresh(), ps, opt)
        names = [d["name"]]
        targets = [p for p in ps if p not in opt]
        npin = 1 if len(targets) < 2 or rng.random() < .7 else 2
        used_t = []
        used_src = set()
        for i in range(npin):
            if i == 0 and (npin == 1 and rng.random() < .5):
                on, explicit = ps[0], False
            else:
                cands = [t for t in targets if t not in used_t and t not in used_src]
                if not cands:
                    break
                on, explicit = rng.choice(cands), True
            used_t.append(on)
            ns = rng.choice(["...", "...", "...", "", self.fresh() + "_pn"])
            steps = []
            for _ in range(rng.choice([1, 2, 3])):
                # steps do not draw on the parameters of other pipes of this function
                av = [a for a in avail if a not in ps]
                steps.append(self.step(av, cur=on, step_ns=(ns == "...")))
            self.uniq(d, steps, ns, d["name"], i)
            d["pins"].append(dict(on=on, ns=ns, steps=steps, explicit=explicit))
        return d, names

    def uniq(self, d, steps, ns, dns, i):
        """keep the produced node names distinct: unnamed steps outside the function's own namespace get a name"""
        for s in steps:
            if s["nm"] == "" and (ns in ("",) or i > 0):
                s["nm"] = self.fresh(True)
        if ns not in ("...", ""):
            pass

    def pipeout(self, avail):
        rng = self.rng
        which = rng.choice(["plain", "plain", "fields", "param", "does"])
        if which == "plain":
            d, names = self.plain(avail)
        elif which == "fields":
            d, names = self.fields(avail, df=False)
        elif which == "does":
            d, names = self.does(avail)
        else:
            d, names = self.paramd(avail)
            if d["fn"]["out"] or any(len({o["name"] for o in d["exp"]}) != len(d["exp"]) for _ in [0]):
                pass
        sinks = self.sinks(d)
        mode = rng.choice(["all", "all", "global", "local"]) if len(sinks) > 1 else rng.choice(["all", "all", "global"])
        ns = rng.choice(["...", "...", "...", "", self.fresh() + "_pn"])
        if len(sinks) > 1:
            ns = "..."                            # one namespace for several outputs would collide
        on = [] if mode != "global" else rng.sample(sinks, rng.randint(1, len(sinks)))
        steps = []
        for _ in range(rng.choice([1, 2, 3])):
            tgt = () if mode != "local" else tuple(rng.sample(sinks, rng.randint(1, len(sinks))))
            av = [a for a in avail if a not in names]
            st = self.step(av, on=tgt, step_ns=(ns == "..." and len(sinks) == 1))
            if ns == "" and st["nm"] == "":
                st["nm"] = self.fresh(True)
            steps.append(st)
        po = dict(t="pout", ns=ns, on=on, steps=steps)
        if rng.random() < .35 and mode == "all" and ns == "..." and not any(s["conds"] or s["nm"] for s in steps):
            po["mutate"] = rng.randint(0, len(steps) - 1)    # the steps from this index on are declared with @mutate
            fs = [s["fn"]["f"] for s in steps[po["mutate"]:]]
            for s in steps[po["mutate"]:]:
                # every mutator is its own function, declared after the target
                nf = dict(self.fnrec(f"_mut{len(self.helpers)}_{self.rng.randrange(999)}", s["fn"]["params"], s["fn"]["opt"]))
                nf["pyname"] = nf["f"].lstrip("_")
                nf["mutator"] = True
                s["fn"] = nf
                s["pos"] = []
                s.pop("var", None)
                self.protos = [q for q in self.protos if q is not s]
        d["trs"].append(po)
        if mode == "local":
            d["deco"].append("local")
        return d, names

    def sinks(self, d):
        if d["trs"]:
            return [k for tr in d["trs"] if tr["t"] == "fields" for k in tr["keys"]]
        if d["exp"]:
            outs = [o["name"] for o in d["exp"]]
            return outs
        return [d["name"]]

    def variants(self, avail):
        """several implementations of one name, selected by configuration"""
        rng = self.rng
        name = self.fresh(True)
        key = rng.choice(self.ckeys)
        n = rng.choice([1, 2, 2, 3])
        vals = rng.sample(CONDVALS, n)
        out = []
        style = rng.choice(["when", "in", "not", "free", "free"])
        used_t = "name" if rng.random() < .25 else "suffix"
        for i in range(n):
            ps, opt = self.rand_params(avail, 0, 3)
            d = self.base(name, ps, opt)
            d["fn"]["f"] = f"{name}__v{i}"
            d["py"] = f"{name}__v{i}"
            d["rename"] = used_t
            if used_t == "name":
                d["py"] = f"impl{i}_of_{name}"
                d["fn"]["f"] = d["py"]
            if style == "when":
                d["conds"] = [dict(t="when", keys=[key], vals=[[vals[i]]])]
            elif style == "in":
                d["conds"] = [dict(t="when_in", keys=[key], vals=[[vals[i], 500 + i]])]
            elif style == "not":
                d["conds"] = [dict(t="when", keys=[key], vals=[[vals[0]]])] if i == 0 else \
                    [dict(t="when_not" if i == 1 else "when_not_in", keys=[key], vals=[[vals[0]]])]
            else:
                d["conds"] = [self.cond() for _ in range(rng.choice([1, 1, 2]))]
            if used_t == "name" and all(c["t"] == "when_not_in" for c in d["conds"]):
                d["conds"].append(dict(t="when_not", keys=[key], vals=[[rng.choice(CONDVALS)]]))   # when_not_in takes no name
            out.append(d)
        return out, name

    def subdagd(self, avail, depth=0):
        rng = self.rng
        ext_used = rng.sample(avail, min(len(avail), rng.choice([0, 1])))
        self.scopes.append(set(ext_used))
        inner_leaf = [self.fresh() for _ in range(rng.choice([1, 2]))]
        inner_avail = inner_leaf + ext_used
        saved = self.avail
        decls, names = self.dag(inner_avail, rng.choice([1, 2, 3]), depth + 1)
        self.scopes.pop()
        self.avail = saved
        # functions of the same names may be reused in the outer dataflow: names live in their own namespace
        use = rng.sample(names, rng.randint(1, min(3, len(names))))
        ext = []
        opt = {}
        if avail and rng.random() < .4:
            x = rng.choice(avail)
            if x not in use:
                ext.append(x)
        if rng.random() < .2:
            self.n += 1
            nf = f"opt_nf{self.n}"
            use.append(nf)
            opt[nf] = self.val()
        ps = sorted(use + ext, key=lambda p: p in opt)
        d = self.base(self.fresh(), ps, opt)
        multi = rng.random() < .4
        parts = []
        ckeys_inner = [k for k in self.ckeys if rng.random() < .4]
        for i in range(rng.choice([2, 3]) if multi else 1):
            nm = self.fresh() if multi else d["name"]
            ns = nm if multi or rng.random() < .7 else self.fresh() + "_sd"
            ins = {}
            for x in inner_leaf:
                src = [a for a in avail]
                ins[x] = dict(t="src", s=rng.choice(src)) if src and rng.random() < .6 else dict(t="lit", v=self.val())
            cfg = {k: rng.choice(CONDVALS[1:]) for k in ckeys_inner if rng.random() < .8}
            parts.append(dict(name=nm, ns=ns, inputs=ins, config=cfg, ext=list(ext)))
        fin = None
        if not multi and rng.random() < .3:
            fin = self.fresh()
            parts[0]["name"] = fin
        d["creator"] = dict(t="subdag", decls=decls, parts=parts)
        d["multi"], d["final_name"] = multi, fin
        d["load"] = rng.choice(["module", "functions"])
        # shared inputs/config of a parameterised subdag
        if multi and rng.random() < .5:
            shared_i = dict(parts[0]["inputs"])
            shared_c = dict(parts[0]["config"])
            d["shared"] = (shared_i, shared_c)
            for p in parts:
                p["over_i"] = {k: v for k, v in p["inputs"].items() if rng.random() < .5}
                p["over_c"] = {k: v for k, v in p["config"].items() if rng.random() < .5}
                p["inputs"] = dict(shared_i, **p["over_i"])
                p["config"] = dict(shared_c, **p["over_c"])
        if rng.random() < .25:
            sinks = [p["name"] for p in parts]
            st = self.step([a for a in avail], step_ns=False)
            d["trs"].append(dict(t="pout", ns="...", on=[], steps=[st]))
        return d, [p["name"] for p in parts]

    def dag(self, avail, n, depth=0):
        rng = self.rng
        decls, names = [], []
        start = list(avail)
        avail = list(avail)
        weights = {"param": [("param", 5), ("fields", 3), ("pec", 1), ("plain", 2), ("does", 1)],
                   "pipe": [("pipein", 4), ("pipeout", 5), ("does", 2), ("plain", 2), ("fields", 1)],
                   "cond": [("variants", 5), ("resolve", 2), ("plain", 2), ("pipein", 2), ("pipeout", 2)],
                   "subdag": [("subdag", 4), ("plain", 3), ("param", 1), ("fields", 1), ("pipein", 1), ("variants", 2),
                              ("pipeout", 1)]}[self.mix]
        bag = [k for k, w in weights for _ in range(w)]
        for i in range(n):
            kind = rng.choice(bag)
            if kind == "subdag" and depth >= 2:
                kind = "plain"
            if depth == 0 and i == n - 1 and self.mix == "subdag" and not any(d["creator"]["t"] == "subdag" for d in decls):
                kind = "subdag"
            if kind == "variants":
                ds, nm = self.variants(avail)
                decls += ds
                names.append(nm)
                self.variant_names.append((nm, depth))
                avail.append(nm)              # when no variant is active the name is an outside value, which we supply
                if depth:
                    names.remove(nm)
                continue
            if kind == "resolve":
                d, ns = self.paramd(avail, resolve=True)
            elif kind == "param":
                d, ns = self.paramd(avail)
            elif kind == "pec":
                d, ns = self.pec(avail)
            elif kind == "subdag":
                d, ns = self.subdagd(avail, depth)
            else:
                d, ns = getattr(self, kind)(avail)
            decls.append(d)
            names += ns
            avail += ns
        if self.mix in ("pipe", "cond") and depth == 0 and rng.random() < .45:
            self.shared_mutators(decls, start)
        return decls, (names or self._one(decls, avail))

    def shared_mutators(self, decls, avail):
        """@mutate(A, apply_to(B, ...), ...): one function applied to the outputs of several others"""
        rng = self.rng
        for j in range(rng.choice([1, 1, 2])):
            cands = [d for d in decls if all(t["t"] == "fields" or t["ns"] == "..." for t in d["trs"])]
            if not cands:
                return
            targets = rng.sample(cands, min(len(cands), rng.choice([1, 2, 3])))
            self.n += 1
            npar = rng.choice([1, 2, 2])
            nf = self.fnrec(f"_mutall{self.n}", ["v", "amount"][:npar])
            nf["pyname"] = nf["f"].lstrip("_")
            nf["mutator"] = nf["shared"] = True
            common = {p: self.binding(avail, allow_group=False) for p in nf["params"][1:]}
            for d in targets:
                own = rng.random() < .5 and npar > 1
                bs = {p: self.binding(avail, allow_group=False) for p in nf["params"][1:]} if own else common
                st = dict(fn=nf, bs=bs, conds=[], nm="", ns="...", on=[], pos=[], raw=rng.random() < .5, own=own, common=common,
                          apply=own or rng.random() < .5)
                if st["apply"] and rng.random() < .4:
                    st["conds"] = [self.cond()]
                if st["apply"] and rng.random() < .3:
                    st["nm"] = self.fresh(True)
                pouts = [t for t in d["trs"] if t["t"] == "pout"]
                sinks = self.sinks(d) if d["creator"]["t"] != "subdag" else []
                if st["apply"] and len(sinks) > 1 and rng.random() < .4 and not (pouts and pouts[0]["on"]):
                    st["on"] = rng.sample(sinks, rng.randint(1, len(sinks)))
                if not pouts:
                    d["trs"].append(dict(t="pout", ns="...", on=[], steps=[], mutate=0))
                    pouts = [d["trs"][-1]]
                pouts[0].setdefault("mutate", len(pouts[0]["steps"]))
                pouts[0]["steps"].append(st)

    def _one(self, decls, avail):
        d, ns = self.plain(avail)
        decls.append(d)
        return ns

    variant_names = None


def program(rng, mix, nmin=2, nmax=6, async_=False):
    g = Gen(rng, mix, async_)
    g.variant_names = []
    decls, names = g.dag(g.leaf, rng.randint(nmin, nmax))
    config = {k: rng.choice(CONDVALS[1:]) for k in g.ckeys if rng.random() < .75}
    inputs = {x: g.val() for x in g.leaf}
    for m in g.maybe:
        if rng.random() < .3:
            inputs[m] = g.val()
    for nm, depth in g.variant_names:
        inputs[nm] = g.val()
    return dict(decls=decls, config=config, inputs=inputs, kid=g.kid, helpers=g.helpers, nofinal=g.nofinal)


# ---------------------------------------------------------------- rendering
HEADER = ("import typing\nfrom typing import Any, List, Dict\nimport pandas as pd\nimport vp_modgen as _g\n"
          "from hamilton.function_modifiers import (parameterize, parameterize_values, parameterize_sources, inject, source,\n"
          "    value, group, extract_fields, extract_columns, parameterize_extract_columns, ParameterizedExtract, does, parametrized,\n    parameterized_inputs,"
          "    pipe_input, pipe_output, step, mutate, apply_to, config, resolve, resolve_from_config, ResolveAt, subdag, parameterized_subdag)\n")


def hv(name):
    """an arbitrary but fixed choice of spelling"""
    return sum(map(ord, name)) % 3 > 0


def lit(v):
    return f"_g.decv({v})"


def rb(b):
    t = b["t"]
    if t == "src":
        return f"source('{b['s']}')"
    if t == "lit":
        return f"value({lit(b['v'])})"
    if t == "list":
        return "group(" + ", ".join(rb(e) for e in b["es"]) + ")"
    if t == "dict":
        return "group(" + ", ".join(f"{k}={rb(e)}" for k, e in zip(b["ks"], b["es"])) + ")"
    if t == "cfglit":
        return f"value({b['key']})"
    if t == "cfgsrc":
        return f"source({b['names']}[_g.code_of({b['key']}) % {len(b['names'])}])"


def code_of(v):
    return _scal(v)


def cfgkeys(b, acc):
    if b["t"] in ("cfglit", "cfgsrc"):
        acc.setdefault(b["key"], b["d"])


def rcond(c, cls, name=None):
    items = []
    if name:
        items.append(f"name='{name}'")
    for k, vs in zip(c["keys"], c["vals"]):
        objs = [dec(v) for v in vs]
        items.append(f"{k}={objs[0]!r}" if c["t"] in ("when", "when_not") else f"{k}={objs!r}")
    return f"{cls}.{c['t']}({', '.join(items)})"


def rstep(st, vars_=None):
    args = [st["fn"]["f"]]
    for p in st["pos"]:
        args.append(rarg(st["bs"][p], st["raw"]))
    for p, b in st["bs"].items():
        if p not in st["pos"]:
            args.append(f"{p}={rarg(b, st['raw'])}")
    s = f"step({', '.join(args)})"
    if st.get("var") and vars_ is not None:
        vars_.setdefault(st["var"], s)
        s = st["var"]
    return s + rmods(st)


def rmods(st):
    s = ""
    for c in st["conds"]:
        s += rcond(c, "")
    if st["nm"]:
        s += f".named('{st['nm']}'" + ("" if st["ns"] == "..." else
                                       f", namespace={None if st['ns'] == '' else st['ns']!r}") + ")"
    if st["on"]:
        s += f".on_output({list(st['on'])!r})" if len(st["on"]) > 1 else f".on_output('{st['on'][0]}')"
    return s


def rarg(b, raw):
    if b["t"] == "lit" and raw:
        return lit(b["v"])
    return rb(b)


def sig(fn, anns=None, kwname=None):
    anns = anns or {}
    ps = [p for p in fn["params"] if p not in fn["opt"]] + [p for p in fn["params"] if p in fn["opt"]]
    return ", ".join(f"{p}: {anns.get(p, 'Any')}" + (f" = {lit(fn['opt'][p])}" if p in fn["opt"] else "") for p in ps)


def body(fn, args=None, df=False, async_=False):
    args = args or "{" + ", ".join(f"'{p}': {p}" for p in fn["params"]) + "}"
    w = "await _g.acall" if async_ else "_g.call"
    return f"    return {w}('{fn['f']}', {args}, {fn['c']}, {fn['k']!r}, {fn['m']}, {tuple(fn['out'])!r}, {df})\n\n"


def rns(ns):
    return "" if ns == "..." else f", namespace={None if ns == '' else ns!r}"


def rdecl(d, async_, submods, vars_=None):
    """-> (prefix source, decorator lines top to bottom, post source)"""
    fn = d["fn"]
    pre, post = "", ""
    decos = []                       # bottom-up
    anns = {}
    ret = ("pd.DataFrame" if d.get("df") else "Dict[str, Any]") if fn["out"] else "Any"
    for o in d["exp"]:
        for p, b in o["b"].items():
            if b["t"] == "list":
                anns[p] = "List[Any]"
            elif b["t"] == "dict":
                anns[p] = "Dict[str, Any]"
    cr = d["creator"]
    a = "async " if async_ else ""
    if cr["t"] == "does":
        rf = cr["fn"]
        if d.get("kw"):
            pre += f"{a}def {rf['f']}(**kw) -> Any:\n" + body(rf, "kw", async_=async_)
        else:
            pre += f"{a}def {rf['f']}({sig(rf)}) -> Any:\n" + body(rf, async_=async_)
        decos.append(f"@does({rf['f']}" + "".join(f", {q}='{p}'" for q, p in cr["map"].items()) + ")")
    if cr["t"] == "subdag":
        load = submods[id(d)]
        rin = lambda m: "{" + ", ".join(f"'{k}': {rb(b)}" for k, b in m.items()) + "}"
        rcf = lambda m: "{" + ", ".join(f"'{k}': {dec(v)!r}" for k, v in m.items()) + "}"
        if d["multi"]:
            s = f"@parameterized_subdag({load}"
            sh = d.get("shared")
            if sh:
                s += f", inputs={rin(sh[0])}, config={rcf(sh[1])}"
            if cr["parts"][0]["ext"]:
                s += f", external_inputs={cr['parts'][0]['ext']!r}"
            for p in cr["parts"]:
                i, c = (p["over_i"], p["over_c"]) if sh else (p["inputs"], p["config"])
                s += f", {p['name']}=dict(inputs={rin(i)}, config={rcf(c)})"
            decos.append(s + ")")
        else:
            p = cr["parts"][0]
            s = f"@subdag({load}, inputs={rin(p['inputs'])}, config={rcf(p['config'])}"
            if p["ns"] != d["name"]:
                s += f", namespace='{p['ns']}'"
            if d["final_name"]:
                s += f", final_node_name='{d['final_name']}'"
            if p["ext"]:
                s += f", external_inputs={p['ext']!r}"
            decos.append(s + ")")
    for pin in d["pins"]:
        decos.append("@pipe_input(" + ", ".join(rstep(s, vars_) for s in pin["steps"]) + rns(pin["ns"])
                     + (f", on_input='{pin['on']}'" if pin["explicit"] else "") + ")")
    if d["exp"]:
        k = d["kind"]
        rm = lambda bs: "{" + ", ".join(f"'{p}': {rb(b)}" for p, b in bs.items()) + "}"
        if k == "pec":
            s = "parameterize_extract_columns(" + ", ".join(
                f"ParameterizedExtract({tuple(o['out'])!r}, {rm(o['b'])})" for o in d["exp"]) \
                + ("" if d["reassign"] else ", reassign_columns=False") + ")"
        elif k == "inject":
            s = "inject(" + ", ".join(f"{p}={rb(b)}" for p, b in d["exp"][0]["b"].items()) + ")"
        elif k == "values":
            p0 = list(d["exp"][0]["b"])[0]
            s = ("parameterize_values" if hv(p0 + d["py"]) else "parametrized") + f"('{p0}', {{" + ", ".join(
                f"('{o['name']}', 'doc'): {lit(o['b'][p0]['v'])}" for o in d["exp"]) + "})"
        elif k == "sources":
            s = ("parameterize_sources(" if hv(d["py"]) else "parameterized_inputs(") + ", ".join(
                f"{o['name']}=dict(" + ", ".join(f"{p}='{b['s']}'" for p, b in o["b"].items()) + ")" for o in d["exp"]) + ")"
        else:
            s = "parameterize(" + ", ".join(f"{o['name']}=" + (rm(o['b']) if hv(o["name"]) else f"({rm(o['b'])}, 'doc')")
                                            for o in d["exp"]) + ")"
        if d.get("resolve"):
            keys = {}
            for o in d["exp"]:
                for b in o["b"].values():
                    cfgkeys(b, keys)
            ps = ", ".join(f"{k}={dec(v)!r}" for k, v in keys.items())
            how = "resolve(when=ResolveAt.CONFIG_AVAILABLE, " if hv(d["py"] + "r") else "resolve_from_config("
            s = f"{how}decorate_with=lambda {ps}: {s})"
        decos.append("@" + s)
    for tr in d["trs"]:
        if tr["t"] == "fields":
            f = f", fill_with={lit(tr['fill'])}" if tr["fill"] else ""
            if d.get("df"):
                decos.append("@extract_columns(" + ", ".join(repr(k) if hv(k) else repr((k, "doc")) for k in tr["keys"]) + f + ")")
            else:
                decos.append("@extract_fields({" + ", ".join(f"'{k}': Any" for k in tr["keys"]) + "}" + f + ")")
        else:
            steps = tr["steps"]
            cut = tr.get("mutate", len(steps))
            if steps[:cut]:
                decos.append("@pipe_output(" + ", ".join(rstep(s, vars_) for s in steps[:cut]) + rns(tr["ns"])
                             + (f", on_output={tr['on']!r}" if tr["on"] else "") + ")")
            for s in steps[cut:]:
                if s["fn"].get("shared"):
                    continue
                kws = "".join(f", {p}={rb(b)}" for p, b in s["bs"].items())
                post += f"@mutate({d['py']}{kws})\n{a}def {s['fn']['f']}({sig(s['fn'])}) -> Any:\n" \
                    + body(s["fn"], async_=async_)
    for i, c in enumerate(d["conds"]):
        nm = d["name"] if d.get("rename") == "name" else None
        if c["t"] == "when_not_in":
            nm = None
        decos.append("@" + rcond(c, "config", nm))
    src = pre + "".join(x + "\n" for x in reversed(decos))
    if cr["t"] == "does":
        src += f"def {d['py']}({sig(fn, anns)}) -> {ret}:\n    pass\n\n"
    else:
        src += f"{a}def {d['py']}({sig(fn, anns)}) -> {ret}:\n" + body(fn, df=bool(d.get('df')), async_=async_)
    return src + post


def build(P, async_=False, rng=None):
    """-> list of modules to drop, list of top-level modules"""
    made = []

    def module(decls):
        submods = {}
        imports = ""
        for d in decls:
            if d["creator"]["t"] == "subdag":
                m = module(d["creator"]["decls"])
                imports += f"import {m.__name__}\n"
                if d["load"] == "module":
                    submods[id(d)] = m.__name__
                else:
                    submods[id(d)] = ", ".join(f"{m.__name__}.{x['py']}" for x in d["creator"]["decls"])
        src = HEADER + imports
        used = set()

        def note(st):
            if not st["fn"].get("mutator"):
                used.add(st["fn"]["f"])
        for d in decls:
            for pin in d["pins"]:
                for s in pin["steps"]:
                    note(s)
            for tr in d["trs"]:
                for s in tr.get("steps", []):
                    note(s)
        for h in P["helpers"]:
            if h["f"] in used:
                if not h["f"].startswith("_"):
                    src += "from hamilton.function_modifiers import hamilton_exclude\n@hamilton_exclude\n"
                src += f"{'async ' if async_ else ''}def {h['f']}({sig(h)}) -> Any:\n" + body(h, async_=async_)
        vars_ = {}
        text = "".join(rdecl(d, async_, submods, vars_) for d in decls)
        src += "".join(f"{k} = {v}\n" for k, v in vars_.items()) + text
        shared = {}
        for d in decls:
            for tr in d["trs"]:
                for s in tr.get("steps", []):
                    if s["fn"].get("shared"):
                        shared.setdefault(s["fn"]["f"], []).append((d, s))
        for f in sorted(shared, key=lambda f: int(f[7:])):
            args = []
            for d, s in shared[f]:
                kws = "".join(f", {p}={rarg(b, s['raw'])}" for p, b in s["bs"].items()) if s["own"] else ""
                args.append(f"apply_to({d['py']}{kws})" + rmods(s) if s["apply"] else d["py"])
            fn, common = shared[f][0][1]["fn"], shared[f][0][1]["common"]
            args += [f"{p}={rb(b)}" for p, b in common.items()]
            src += f"@mutate({', '.join(args)})\ndef {f}({sig(fn)}) -> Any:\n" + body(fn)
        m = prog.make_module(prog.uid("vpmod"), src)
        m.__vp_src__ = src
        made.append(m)
        return m
    try:
        top = module(P["decls"])
    except BaseException:
        for m in made:
            prog.drop_module(m)
        raise
    return made, [top]


def strip(P):
    """the JSON form for the specification"""
    def fnr(f):
        return {k: f[k] for k in ("f", "params", "opt", "c", "k", "m", "out", "pyname") if k in f}

    def stp(s):
        return dict(fn=fnr(s["fn"]), bs=s["bs"], conds=s["conds"], nm=s["nm"], ns=s["ns"], on=list(s["on"]))

    def tr(t):
        if t["t"] == "fields":
            return t
        return dict(t="pout", ns=t["ns"], on=t["on"], steps=[stp(s) for s in t["steps"]])

    def cre(c):
        if c["t"] == "does":
            return dict(t="does", fn=fnr(c["fn"]), map=c["map"])
        if c["t"] == "subdag":
            return dict(t="subdag", decls=[decl(x) for x in c["decls"]],
                        parts=[{k: p[k] for k in ("name", "ns", "inputs", "config", "ext")} for p in c["parts"]])
        return c

    def decl(d):
        return dict(name=d["name"], fn=fnr(d["fn"]), conds=d["conds"], creator=cre(d["creator"]),
                    pins=[dict(on=p["on"], ns=p["ns"], steps=[stp(s) for s in p["steps"]]) for p in d["pins"]],
                    exp=d["exp"], trs=[tr(t) for t in d["trs"]])
    return dict(decls=[decl(d) for d in P["decls"]], config=P["config"], inputs=P["inputs"], kid=dict(P["kid"], _=1))
