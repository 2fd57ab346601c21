"""One handler per kind of scenario."""
from __future__ import annotations

import api

HANDLERS = {}


def handler(kind):
    def deco(f):
        HANDLERS[kind] = f
        return f
    return deco


def run(rec):
    api.AMBIENT = rec.get("amb", {})
    return HANDLERS[rec["kind"]](rec)


@handler("calls")
def calls(rec):
    rec["obs"] = [api.observe(c) for c in rec["calls"]]
    return rec


def guarded(f):
    """exceptions are outcomes"""
    import torch
    old = torch.get_default_dtype()
    try:
        return f()
    except Exception as ex:  # noqa: BLE001
        return {"err": type(ex).__name__, "msg": str(ex)[:200]}
    finally:
        torch.set_default_dtype(old)


@handler("pair")
def pair(rec):
    call = rec["call"]

    def go():
        import torch
        inp = api.Inputs(call)
        c6 = inp.opt(call, "c6", inp.dtype, [-2, -1])
        damp = api.DAMP[call["damp"]]()
        kw = {}
        if inp.cutoff is not None:
            kw["cutoff"] = inp.cutoff.disp2
        args = (inp.numbers, inp.positions, inp.param, c6, inp.r4r2, inp.vdw, damp)
        e = api.dispersion2(*args, **kw)
        m = api.dispersion2(*args, **kw, as_matrix=True)
        return {"energy": api.nest(e), "matrix": api.nest(m), "dtype": str(e.dtype)}
    rec["obs"] = guarded(go)
    return rec


@handler("atmraw")
def atmraw(rec):
    call = rec["call"]

    def go():
        inp = api.Inputs(call)
        u = inp.opt(call, "u", inp.dtype, [-1])
        rad = inp.opt(call, "rad", inp.dtype, [-2, -1])
        c9 = u.unsqueeze(-1).unsqueeze(-1) * u.unsqueeze(-1).unsqueeze(-3) * u.unsqueeze(-2).unsqueeze(-3)
        cut = inp.cutoff if inp.cutoff is not None else api.Cutoff(dtype=inp.dtype)
        own = {"damping_function": api.DAMP[call["damp"]]()} if "damp" in call else {}
        e = api.get_atm_dispersion(inp.numbers, inp.positions, c9, rad, cut.disp3, **own,
                                   s9=inp.param["s9"], alp=inp.param["alp"])
        return {"energy": api.nest(e)}
    rec["obs"] = guarded(go)
    return rec


def model_of(call, inp):
    return api.MODELS[call["model"]](inp.numbers, **api.opt_kwargs(call, inp), dtype=inp.dtype)


@handler("weights")
def weights(rec):
    call = rec["call"]

    def go():
        inp = api.Inputs(call)
        cn = inp.opt(call, "cn", inp.dtype, [-1])
        model = model_of(call, inp)
        kw = {}
        if cn is not None:
            kw["cn"] = cn
        if inp.q is not None:
            kw["q"] = inp.q
        gw = model.weight_references(**kw)
        o = {"gw": api.nest(gw), "dtype": str(gw.dtype)}
        if rec.get("also"):      # what else the model gives
            dq = model.weight_references(**kw, with_dgwdq=True)
            ts = [*dq, model.get_atomic_c6(gw), model.get_weighted_pols(gw), model.get_polarizabilities(gw)]
            if call["model"] == "d4":
                ts += model.weight_references(**kw, with_dgwdcn=True)
            o["dtypes"] = [str(t.dtype) for t in ts]
        return o
    rec["obs"] = guarded(go)
    return rec


@handler("c6")
def c6(rec):
    call = rec["call"]

    def go():
        inp = api.Inputs(call)
        dims = [-2] if call["model"] == "d4" else [-3, -2]
        gw = inp.opt(call, "gw", inp.dtype, dims)
        model = model_of(call, inp)
        return {"c6": api.nest(model.get_atomic_c6(gw)), "pols": api.nest(model.get_weighted_pols(gw)),
                "static": api.nest(model.get_polarizabilities(gw))}
    rec["obs"] = guarded(go)
    return rec


@handler("quad")
def quad(rec):
    def go():
        import torch
        from tad_dftd4 import utils
        dt = api.DT[rec["dtype"]]

        def t(x):
            x = torch.tensor(x, dtype=torch.float64).to(dt)
            for _ in range(rec["lead"]):
                x = torch.stack((x, x))
            return api.lay(x, api.AMBIENT.get("mem"))
        f = {"ref": utils.trapzd, "noref": utils.trapzd_noref, "atm": utils.trapzd_atm}[rec["form"]]
        args = (t(rec["a"]),) + ((t(rec["b"]),) if "b" in rec else ())
        v = f(*args)
        return {"values": api.nest(v.flatten(0, rec["lead"] - 1)) if rec["lead"] else [api.nest(v)]}
    rec["obs"] = guarded(go)
    return rec


@handler("cutoff")
def cutoff(rec):
    def go():
        import torch
        kw = {k: v / 64.0 for k, v in rec["cut"].items()} if isinstance(rec["cut"], dict) else {}
        dt = api.DT.get(rec["dtype"])
        if rec["as"] == "int":
            kw = {k: int(v) for k, v in kw.items()}
        elif rec["as"] == "tensor":
            kw = {k: torch.tensor(v, dtype=dt) for k, v in kw.items()}
        c = api.Cutoff(**kw, **({} if dt is None else {"dtype": dt}))
        return {k: float(getattr(c, k)) for k in ("disp2", "disp3", "cn", "cn_eeq")}
    rec["obs"] = guarded(go)
    return rec


@handler("deriv")
def deriv(rec):
    """S = sum w_i E_i and its directional derivatives by automatic differentiation"""
    api.AMBIENT = dict(api.AMBIENT, pas="tensor", chgas="tensor")
    call = rec["call"]

    def go():
        import torch
        plain_inp = api.Inputs(call)
        f64 = torch.float64
        w = plain_inp.arr([torch.tensor(r, dtype=f64) / 16.0 for r in rec["w"]], [-1])
        plain = (w * api.energy(call, plain_inp)).sum()

        inp0 = api.Inputs(call)
        names, xs, ds = ["positions"], [inp0.positions], []
        if "dpos" in call:
            ds.append(inp0.arr([(torch.tensor(r, dtype=f64) / m["den"]).reshape(-1, 3)
                                for r, m in zip(call["dpos"], call["mols"])], [-2]))
        else:
            ds.append(torch.zeros_like(inp0.positions))
        for k, v in (call.get("dp") or {}).items():
            names.append("p:" + k)
            xs.append(inp0.param[k])
            ds.append(torch.tensor(v / api.K, dtype=f64))
        if "dq" in call:
            names.append("q")
            xs.append(inp0.q)
            ds.append(inp0.opt(call, "dq", f64, [-1]))
        if "dchg" in call:
            names.append("charge")
            xs.append(inp0.charge)
            d = torch.tensor(call["dchg"], dtype=f64) / 4.0
            ds.append(d[0] if inp0.layout == "single" else d)

        def f(*args):
            return (w * fe(*args)).sum()

        def fe(*args):
            inp = api.Inputs(call)
            for k, a in zip(names, args):
                if k.startswith("p:"):
                    inp.param[k[2:]] = a
                else:
                    setattr(inp, k, a)
            return api.energy(call, inp)

        args = [x.clone().requires_grad_(True) for x in xs]
        S = f(*args)
        if S.requires_grad:
            g = torch.autograd.grad(S, args, create_graph=True, allow_unused=True)
            g = [torch.zeros_like(x) if y is None else y for x, y in zip(args, g)]
        else:
            g = [torch.zeros_like(x) for x in args]
        linked = S.requires_grad
        first = sum((a * b).sum() for a, b in zip(g, ds))
        if first.requires_grad:
            h = torch.autograd.grad(first, args, allow_unused=True)
            h = [torch.zeros_like(x) if y is None else y for x, y in zip(args, h)]
        else:
            h = [torch.zeros_like(x) for x in args]
        second = sum((a * b).sum() for a, b in zip(h, ds))
        out = {"plain": float(plain), "value": float(S), "first": float(first), "second": float(second),
               "grad": api.nest(g[0]), "linked": linked}
        if rec["func"]:
            nums = tuple(range(len(args)))
            xs0 = [x.clone() for x in xs]

            def f1(*a):
                gg = torch.func.grad(f, argnums=nums)(*a)
                return sum((u * v).sum() for u, v in zip(gg, ds))
            out["ffirst"] = float(f1(*xs0))
            hh = torch.func.grad(f1, argnums=nums)(*xs0)
            out["fsecond"] = float(sum((u * v).sum() for u, v in zip(hh, ds)))
            # forward mode, alone and over reverse mode
            _, t = torch.func.jvp(f, tuple(xs0), tuple(ds))
            out["jfirst"] = float(t)
            _, t = torch.func.jvp(f1, tuple(xs0), tuple(ds))
            out["jsecond"] = float(t)
            # the Jacobian of all atoms' energies (vectorised) and a Hessian
            jac = torch.func.jacrev(fe, argnums=nums)(*xs0)
            out["vfirst"] = float(sum((w.reshape(w.shape + (1,) * v.ndim) * u * v).sum() for u, v in zip(jac, ds)))
            if len(nums) == 1:
                hess = torch.func.hessian(f)(*xs0)
                out["vsecond"] = float((hess.reshape(ds[0].numel(), -1) @ ds[0].flatten() * ds[0].flatten()).sum())
        return out
    rec["obs"] = guarded(go)
    return rec


@handler("edge")
def edge(rec):
    """energy and all first derivatives"""
    api.AMBIENT = dict(api.AMBIENT, pas="tensor", chgas="tensor")
    call = rec["call"]

    def go():
        import torch
        inp = api.Inputs(call)
        inp.positions = inp.positions.clone().requires_grad_(True)
        names = list(inp.param)
        for k in names:
            inp.param[k] = inp.param[k].clone().requires_grad_(True)
        xs = [inp.positions] + [inp.param[k] for k in names]
        if inp.q is not None:
            inp.q = inp.q.clone().requires_grad_(True)
            xs.append(inp.q)
        e = api.energy(call, inp)
        if e.requires_grad:
            g = torch.autograd.grad(e.sum(), xs, allow_unused=True)
        else:
            g = [None] * len(xs)
        g = [torch.zeros_like(x) if y is None else y for x, y in zip(xs, g)]
        out = {"energy": api.nest(e), "grad": api.nest(g[0]), "linked": e.requires_grad, "dtype": str(e.dtype).replace("torch.", ""),
               "dparam": {k: float(v) for k, v in zip(names, g[1:])}}
        if inp.q is not None:
            out["dq"] = api.nest(g[-1])
        return out
    rec["obs"] = guarded(go)
    return rec


@handler("wgrad")
def wgrad(rec):
    call = rec["call"]

    def go():
        import torch
        inp = api.Inputs(call)
        cn = inp.opt(call, "cn", inp.dtype, [-1]).requires_grad_(True)
        q = inp.q.clone().requires_grad_(True)
        gw = model_of(call, inp).weight_references(cn, q)
        dcn, dq = torch.autograd.grad(gw.sum(), (cn, q))
        return {"gw": api.nest(gw), "dcn": api.nest(dcn), "dq": api.nest(dq)}
    rec["obs"] = guarded(go)
    return rec


@handler("lookup")
def lookup(rec):
    from tad_dftd4 import get_params
    from tad_dftd4.damping import DispersionMethod
    out = []
    kept = []
    for op in rec["ops"]:
        f = None if op["func"] == "<none>" else op["func"]
        if f is not None:
            f = {"lower": f, "upper": f.upper(), "title": f.title(), "swap": f[:1] + f[1:].upper()}[op["case"]]
        try:
            kw = {"method": DispersionMethod(op["method"]) if op["as"] == "enum" else op["method"], "functional": f}
            if op["var"] != "<none>":
                kw["variant"] = op["var"]
            if op["doi"]:
                kw["keep_doi"] = True
            p = get_params(**kw)
            ent = [[k, v if isinstance(v, str) else float(v)] for k, v in sorted(p.items())]
            out.append({"entry": ent})
            # earlier answers must not change when a later one is scribbled over
            for q, e in kept[-3:]:
                if sorted(q.items()) != e:
                    rec["later_ok"] = False
            if len(out) % 2:
                for k in list(p):
                    p[k] = -99.0
                p["extra"] = 1.0
                if len(out) % 4 == 1:
                    p.clear()
            else:
                kept.append((p, sorted(p.items())))
        except Exception as ex:  # noqa: BLE001
            out.append({"err": type(ex).__name__})
    rec.setdefault("later_ok", True)
    rec["obs"] = out
    return rec


@handler("boxes")
def boxes(rec):
    """histories of container operations; every container is evaluated after every step"""
    call = rec["call"]
    inp = api.Inputs(call)
    pool = POOL
    shared = [api.make_term(t) for t in pool]
    box = [None, None]
    obs = []
    cls = dict(api.CLASSES, Disp=api.Disp)

    def term(op):
        return shared[op["t"] - 1] if op["as"] == "shared" else api.make_term(pool[op["t"] - 1], bare=True)

    def evaluated(b):
        e = b.calculate(inp.numbers, inp.positions, inp.charge, inp.param)
        return {"energy": api.nest(e), "dtype": str(e.dtype).replace("torch.", "")}

    for op in rec["ops"]:
        ob = {}
        c = op["c"] - 1
        try:
            if op["op"] == "new":
                box[c] = cls[op["cls"]](model=call["model"], dtype=inp.dtype)
            elif op["op"] == "register":
                box[c].register(term(op))
            elif op["op"] == "deregister":
                box[c].deregister(term(op))
            elif op["op"] == "copy":
                import torch
                tmp = box[c].type(torch.float32)
                box[op["to"] - 1] = tmp.type(torch.float64)
        except Exception as ex:  # noqa: BLE001
            ob["err"] = type(ex).__name__
        ob["boxes"] = [{"absent": True} if b is None else guarded(
            lambda b=b: evaluated(b))
            for b in box]
        obs.append(ob)
    rec["obs"] = obs
    return rec


def _t(kind, damp, chg):
    return {"kind": kind, "damp": damp, "chg": chg}


POOL = [_t("two", "rational", True), _t("two", "rational", False), _t("atm-approx-bj", "zero", False),
        _t("atm-exact-bj", "zero", False), _t("two", "zero", False), _t("atm-approx-vdw", "zero", False),
        _t("atm-approx-bj", "zero", True), _t("two", "mzero", True), _t("flat", "zero", True), _t("atm-exact-bj", "soft", False),
        _t("flat", "zero", False)]


def deform(t, how, dims):
    """the wrong shape; dims: trailing dimensions that are not atoms"""
    import torch
    ax = t.ndim - 1 - dims
    if how == "short":
        return t.narrow(ax, 0, t.shape[ax] - 1)
    if how == "long":
        return torch.cat((t, t.narrow(ax, 0, 1)), dim=ax)
    if how == "colshort":
        return t[..., :-1]
    if how == "collong":
        return torch.cat((t, t[..., :1]), dim=-1)
    if how == "col1":
        return t[..., :1] if t.shape[-1] > 1 else torch.cat((t, t), dim=-1)
    if how == "vector":
        return t[..., 0]
    if how == "batched":
        return torch.stack((t, t))
    if how == "flat":
        return t.flatten()
    if how == "one":                   # one column, which would broadcast
        return t.narrow(ax, 0, 1)
    if how == "row":                   # one molecule, which would broadcast
        return t[:1]
    if how == "rows":                  # a molecule too many
        return torch.cat((t, t[:1]))
    if how == "norow":
        return t[0]
    if how == "lead":
        return t.unsqueeze(0)
    if how == "scalar":
        return t.flatten()[0]
    raise AssertionError(how)


@handler("session")
def session(rec):
    obs = []
    for call in rec["calls"]:
        f = call.get("fault")
        if not f:
            obs.append(api.observe(call))
            continue

        def go():
            inp = api.Inputs(call)
            w = f["what"]
            c = call
            if w == "positions":
                inp.positions = deform(inp.positions, f["how"], 1)
            elif w == "rvdw":
                inp.vdw = deform(inp.vdw, f["how"], 1)
            elif w in ("q", "r4r2", "rcov"):
                setattr(inp, w, deform(getattr(inp, w), f["how"], 0))
            elif w == "novdw":
                return {"energy": api.nest(api.pair_without_radii(call, inp, f["how"]))}
            elif w == "radius":
                return {"energy": api.nest(api.dftd4(inp.numbers, inp.positions, inp.charge, inp.param, damping_function=api.OddDamping()))}
            elif w == "model":
                c = dict(call, model_spelling=f["how"])
            elif w == "refq":
                if call["api"] == "dftd4":
                    cls = api.MODELS[call["model"]]
                    m = cls(inp.numbers, ref_charges=f["how"], dtype=inp.dtype)
                    return {"energy": api.nest(api.dftd4(inp.numbers, inp.positions, inp.charge, inp.param, model=m))}
                c = dict(call, opt={"refq": f["how"]})
            return {"energy": api.nest(api.energy(c, inp))}
        obs.append(guarded(go))
    rec["obs"] = obs
    return rec


@handler("history")
def history(rec):
    """a session over shared objects; what the user holds is read back after every operation"""
    import sys
    import threading
    import types

    import torch
    sys.setswitchinterval(1e-5)
    api.AMBIENT = dict(api.AMBIENT, pas="tensor", chgas="tensor")
    old = torch.get_default_dtype()
    f64 = torch.float64
    inputs = [[api.Inputs(dict(c, dtype="float64")) for c in s] for s in rec["systems"]]
    # the live systems: tensors that stay the same objects through the session
    live = [{k: getattr(s[0], k).clone() for k in ("numbers", "positions", "charge", "q", "r4r2", "vdw")
             if getattr(s[0], k) is not None} for s in inputs]
    dirs = [[i.arr([(torch.tensor(d, dtype=f64) / 64.0).reshape(-1, 3) for d in c["dir"]], [-2]) for i, c in zip(si, sc)]
            for si, sc in zip(inputs, rec["systems"])]
    for s, d in zip(live, dirs):
        s["dir"] = d[0].clone()
    par = [{k: torch.tensor(v / api.K, dtype=f64) for k, v in p[0].items()} for p in rec["params"]]
    cuts = [api.Cutoff(**{k: v / 64.0 for k, v in c[0].items()}, dtype=f64) for c in rec["cuts"]]
    instances, boxes = {}, {}

    def instance(name, numbers, fresh=False):
        if fresh:
            with torch.inference_mode(False):
                return api.MODELS[name](numbers.clone(), dtype=f64)
        # one instance per content of the atomic numbers, used whenever that content comes up
        key = (name, str(numbers.tolist()))
        if key not in instances:
            with torch.inference_mode(False):
                instances[key] = api.MODELS[name](numbers.clone(), dtype=f64)
        return instances[key]

    def box(i, h, numbers, fresh=False):
        if fresh:
            with torch.inference_mode(False):
                return api.CLASSES[h["api"]](model=instance(h["model"], numbers, True) if h["how"] == "boxi" else h["model"], dtype=f64)
        key = (i, str(numbers.tolist()) if h["how"] == "boxi" else "")
        if key not in boxes:
            model = instance(h["model"], numbers) if h["how"] == "boxi" else h["model"]
            with torch.inference_mode(False):
                boxes[key] = api.CLASSES[h["api"]](model=model, dtype=f64)
        return boxes[key]

    def evaluate(o, grad=False):
        if o["mode"] == "nograd":
            with torch.no_grad():
                return evaluate_(o, grad)
        if o["mode"] == "inference":
            with torch.inference_mode():
                return evaluate_(o, grad)
        return evaluate_(o, grad)

    def evaluate_(o, grad):
        h = rec["hows"][o["h"] - 1]
        s = live[o["s"] - 1]
        if o.get("temp"):
            s = {k: v.clone() for k, v in s.items()}
        kw, watch = {}, []
        if o["c"]:
            kw["cutoff"] = cuts[o["c"] - 1]
            if o.get("temp"):
                kw["cutoff"] = api.Cutoff(**{k: getattr(cuts[o["c"] - 1], k).clone() for k in ("disp2", "disp3", "cn", "cn_eeq")}, dtype=f64)
        if o["useq"]:
            kw["q"] = s["q"]
        if o.get("user"):
            kw["r4r2"] = s["r4r2"]
        if o.get("usev"):
            kw["rvdw"] = s["vdw"]
        pos, prm = s["positions"], par[o["p"] - 1]
        if o.get("temp"):
            prm = {k: v.clone() for k, v in prm.items()}
        if grad or o["mode"] == "requires":
            pos = pos.detach().clone().requires_grad_(True)
            prm = {k: v.detach().clone().requires_grad_(True) for k, v in prm.items()}
        args = (s["numbers"], pos, s["charge"], prm)
        if o["f32"]:
            f32 = torch.float32
            args = (s["numbers"], pos.to(f32), s["charge"].to(f32), {k: v.to(f32) for k, v in args[3].items()})
            if o["c"]:
                kw["cutoff"] = cuts[o["c"] - 1].type(f32)
            for k in ("q", "r4r2", "rvdw"):
                if k in kw:
                    kw[k] = kw[k].to(f32)
        if h["api"] == "dftd4":
            kw["model"] = instance(h["model"], s["numbers"], o.get("temp")) if h["how"] == "inst" else h["model"]
            e = api.dftd4(*args, **kw)
        elif h["api"] == "blocks":
            inp = types.SimpleNamespace(numbers=args[0], positions=args[1], charge=args[2], param=args[3], dtype=args[1].dtype,
                                        cutoff=kw.get("cutoff"), q=kw.get("q"), r4r2=kw.get("r4r2"), vdw=kw.get("rvdw"))
            e = api.blocks(h, inp, watch)
        else:
            e = box(o["h"], h, s["numbers"], o.get("temp")).calculate(*args, **kw)
        res = {"energy": e}
        if watch:      # what went from one building block to the next
            res["intact"] = "yes" if all(torch.equal(a, b) for a, b in watch) else "no"
        if grad:
            xs = [pos] + list(prm.values())
            g = torch.autograd.grad(e.sum(), xs, allow_unused=True) if e.requires_grad else [None] * len(xs)
            ds = [s["dir"]] + [torch.full_like(v, 64.0 / api.K) for v in prm.values()]
            res["first"] = sum(((a * d).sum() for a, d in zip(g, ds) if a is not None), torch.zeros((), dtype=f64))
        return res

    def props(o):
        s = live[o["s"] - 1]
        cn, q, c6, al = api.get_properties(s["numbers"], s["positions"], s["charge"])
        return {"cn": cn, "q": q, "c6": c6, "alpha": al}

    def wts(o):
        s = live[o["s"] - 1]
        m = instance(rec["hows"][o["h"] - 1]["model"], s["numbers"])
        cn = torch.where(s["numbers"] > 0, 1.0 + o["x"] / 2.0, 0.0).to(f64)
        return {"gw": m.weight_references(cn, s["q"])}

    def plain(res):
        return {k: (v if isinstance(v, str) else api.nest(v)) for k, v in res.items()}

    def attempt(f, *a, **k):
        try:
            return f(*a, **k)
        except Exception as ex:  # noqa: BLE001
            return {"err": type(ex).__name__, "msg": str(ex)[:200]}

    def world():
        return {"z": [api.nest(s["numbers"]) for s in live], "pos": [api.nest(s["positions"]) for s in live],
                "r4r2": [api.nest(s["r4r2"]) if "r4r2" in s else 0 for s in live],
                "vdw": [api.nest(s["vdw"]) if "vdw" in s else 0 for s in live],
                "q": [api.nest(s["q"]) for s in live], "chg": [api.nest(s["charge"]) for s in live],
                "p": [{k: float(v) for k, v in p.items()} for p in par],
                "cut": [{k: float(getattr(c, k)) for k in ("disp2", "disp3", "cn", "cn_eeq")} for c in cuts]}

    results, obs = [], []
    try:
        for o in rec["ops"]:
            res, ob = None, {}
            if o["op"] == "energy":
                res = attempt(evaluate, o)
            elif o["op"] == "grad":
                res = attempt(evaluate, o, grad=True)
            elif o["op"] == "props":
                res = attempt(props, o)
            elif o["op"] == "weights":
                res = attempt(wts, o)
            elif o["op"] == "mutate":
                for k, t in live[o["s"] - 1].items():
                    i, v = o["s"] - 1, o["v"] - 1
                    t.copy_(dirs[i][v] if k == "dir" else getattr(inputs[i][v], k))
            elif o["op"] == "setp":
                p = par[o["p"] - 1]
                new = rec["params"][o["p"] - 1][o["v"] - 1]
                for k in [k for k in p if k not in new]:
                    del p[k]
                for k, v in new.items():
                    if k in p:
                        p[k].fill_(v / api.K)
                    else:
                        p[k] = torch.tensor(v / api.K, dtype=f64)
            elif o["op"] == "setc":
                new = api.Cutoff(**{k: v / 64.0 for k, v in rec["cuts"][o["c"] - 1][o["v"] - 1].items()}, dtype=f64)
                for k in ("disp2", "disp3", "cn", "cn_eeq"):
                    getattr(cuts[o["c"] - 1], k).copy_(getattr(new, k))
            elif o["op"] == "scribble":
                for t in (results[o["r"] - 1] or {}).values():
                    if isinstance(t, torch.Tensor):
                        with torch.inference_mode(t.is_inference()):
                            t.detach().fill_(7.0)
            elif o["op"] == "default":
                torch.set_default_dtype(api.DT[o["dtype"]])
            elif o["op"] == "threads":
                n = len(o["jobs"])
                got = [[None] * 3 for _ in range(n)]
                start = threading.Barrier(n)

                def work(j):
                    start.wait()
                    for i in range(3):
                        r = attempt(evaluate, o["jobs"][j])
                        got[j][i] = plain(r)
                ts = [threading.Thread(target=work, args=(j,)) for j in range(n)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                ob["jobs"] = got
            if res is not None:
                ob.update(plain(res))
            results.append(res)
            if not rec.get("sparse") or len(results) % 20 == 0:
                ob["world"] = world()
            obs.append(ob)
        rec["final"] = [{"none": True} if r is None else plain(r) for r in results]
    finally:
        torch.set_default_dtype(old)
    rec["obs"] = obs
    return rec


@handler("damp")
def damp(rec):
    def go():
        import torch
        f64 = api.DT[rec["dtype"]]
        d = torch.tensor(rec["dist"], dtype=f64) / 64.0
        r = torch.tensor(rec["rad"], dtype=f64) / 64.0
        shp = {"vector": (12,), "matrix": (3, 4), "batch": (2, 3, 2)}[rec["shape"]]
        p = rec["p"] if isinstance(rec["p"], dict) else {}
        conv = {"float": lambda v: v / api.K, "int": lambda v: int(v // 1024),
                "tensor": lambda v: torch.tensor(v / api.K, dtype=f64)}[rec["p_as"]]
        kw = {k: conv(v) for k, v in p.items()}
        kw.update({k: None for k in rec["nones"]})
        if rec["only"]:
            kw["only_damping"] = True
        f = api.DAMP[rec["scheme"]]()
        for b in rec["before"]:                # an object may be used again
            old = {k: conv(v) for k, v in b["p"].items()}
            old.update({k: None for k in b["nones"]})
            guarded(lambda: f((d + b["shift"] / 64.0).reshape(shp), r.reshape(shp), b["order"], b["only"], **old))
        return {"values": api.nest(f(d.reshape(shp), r.reshape(shp), rec["order"], **kw).reshape(-1))}
    rec["obs"] = guarded(go)
    return rec


@handler("dweights")
def dweights(rec):
    call = rec["call"]

    def go():
        inp = api.Inputs(call)
        cn = inp.opt(call, "cn", inp.dtype, [-1])
        kw = {}
        if cn is not None:
            kw["cn"] = cn
        if inp.q is not None:
            kw["q"] = inp.q
        if rec["dq"]:
            kw["with_dgwdq"] = True
        if rec["dcn"]:
            kw["with_dgwdcn"] = True
        return {"out": [api.nest(t) for t in model_of(call, inp).weight_references(**kw)]}
    rec["obs"] = guarded(go)
    return rec


@handler("convert")
def convert(rec):
    """histories of conversions; every object is used after every operation"""
    import torch
    name = {torch.float32: "float32", torch.float64: "float64"}
    dts = dict(api.DT, int64=torch.int64)
    base = rec["base"]
    objs = []          # [kind, object]

    def call_of(kind, dtype):
        c = dict(base, **{k: v for k, v in kind.items() if k not in ("what", "term")})
        return dict(c, dtype=dtype)

    def build(kind, dtype):
        call = call_of(kind, dtype)
        inp = api.Inputs(call)
        if kind["what"] == "model":
            return model_of(call, inp)
        if kind["what"] == "box":
            return api.container(call, inp, api.CLASSES[kind["api"]])
        if kind["what"] == "term":
            t = POOL[kind["term"] - 1]
            old = torch.get_default_dtype()
            try:
                torch.set_default_dtype(api.DT[dtype])     # terms are built in the default type
                return api.make_term(t)
            finally:
                torch.set_default_dtype(old)
        return inp.cutoff

    def mix(kind, obj):
        """use with inputs of the other type; what comes out is not specified"""
        other = {"float32": "float64", "float64": "float32"}[name[obj.dtype]]
        if kind["what"] == "model":
            guarded(lambda: api.DispD4(model=obj, dtype=api.DT[other]))
        guarded(lambda: use(kind, obj, other))

    def use(kind, obj, dtype=None):
        dtype = dtype or name[obj.dtype]
        call = call_of(kind, dtype)
        inp = api.Inputs({k: v for k, v in call.items() if k != "cut"})
        args = (inp.numbers, inp.positions, inp.charge, inp.param)
        intact = True
        if kind["what"] == "model":
            e = api.dftd4(*args, model=obj)
            intact = not obj.numbers.is_floating_point() and obj.numbers.tolist() == inp.numbers.tolist()
        elif kind["what"] == "box":
            e = obj.calculate(*args)
        elif kind["what"] == "term":
            d = api.Disp(model=kind["model"], dtype=inp.dtype)
            d.register(obj)
            e = d.calculate(*args)
        else:
            e = api.dftd4(*args, cutoff=obj)
            want = dict({"disp2": 3840, "disp3": 2560, "cn": 1920, "cn_eeq": 1600}, **kind["cut"])
            intact = all(float(getattr(obj, k)) == v / 64.0 and getattr(obj, k).dtype == obj.dtype for k, v in want.items())
        return {"energy": api.nest(e), "edtype": str(e.dtype).replace("torch.", ""), "odtype": dtype, "intact": intact}

    obs = []
    for op in rec["ops"]:
        ob = {}
        try:
            if op["op"] == "new":
                kind = rec["kinds"][op["kind"] - 1]
                objs.append((kind, build(kind, op["dtype"])))
            elif op["op"] == "convert":
                kind, x = objs[op["o"] - 1]
                dt = dts[op["dtype"]]
                y = {"type": lambda: x.type(dt), "to": lambda: x.to(torch.device("cpu"), dt),
                     "tokw": lambda: x.to(dtype=dt)}[op["via"]]()
                objs.append((kind, y))
            elif op["op"] == "mix":
                kind, x = objs[op["o"] - 1]
                guarded(lambda: mix(kind, x))
            elif op["op"] == "register":
                objs[op["o"] - 1][1].register(api.make_term(POOL[1]))
        except Exception as ex:  # noqa: BLE001
            ob = {"err": type(ex).__name__, "msg": str(ex)[:200]}
        ob["uses"] = [guarded(lambda k=k, x=x: use(k, x)) for k, x in objs]
        obs.append(ob)
    rec["obs"] = obs
    return rec
