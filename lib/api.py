"""Turns a call record (see spec/Calls.tla) into a call of the real library.

Only public names of tad_dftd4 and its dependencies are used.
"""
from __future__ import annotations

import warnings

import torch

warnings.filterwarnings("ignore")
torch.set_num_threads(1)

from tad_mctc.batch import pack  # noqa: E402
from tad_mctc.ncoord import cn_d3, cn_d4, erf_count, exp_count  # noqa: E402
from tad_multicharge import get_eeq_charges  # noqa: E402

import tad_dftd4  # noqa: E402
from tad_dftd4 import Cutoff, D4Model, D4SModel, dftd4, get_properties  # noqa: E402
from tad_dftd4.damping import (  # noqa: E402
    MZeroDamping, OptimisedPowerDamping, RationalDamping, ZeroDamping)
from tad_dftd4.dispersion.base import Disp, DispTerm  # noqa: E402
from tad_dftd4.dispersion.d3 import D3ATM, DispD3BJ, DispD3Zero  # noqa: E402
from tad_dftd4.dispersion.d4 import D4ATMApprox, D4ATMExact, DispD4, DispD4Exact  # noqa: E402
from tad_dftd4.dispersion.threebody import get_atm_dispersion  # noqa: E402
from tad_dftd4.dispersion.twobody import TwoBodyTerm, dispersion2  # noqa: E402
from tad_dftd4.model.d4s import D4SDebug  # noqa: E402

K = 1024.0
AMBIENT = {}          # of the current scenario, see Ambient in spec/Build.tla


def lay(t, mem):
    """the same values in another memory layout"""
    if mem == "strided":
        return torch.stack((t, torch.full_like(t, 9)), dim=-1)[..., 0]
    if mem == "reversed":              # dimensions stored in reverse order
        dims = tuple(reversed(range(t.ndim)))
        return t.permute(dims).contiguous().permute(dims)
    return t


DT = {"float64": torch.float64, "float32": torch.float32}
class PlainDamping(tad_dftd4.damping.Damping):
    """a user's own damping function"""

    radius_type = "r4r2"

    def _f(self, distances, radii, order, **_):
        return 1.0 / (distances.pow(order) + 1.0)


class OddDamping(PlainDamping):
    """asks for radii that do not exist"""

    radius_type = "other"


class SoftDamping(tad_dftd4.damping.Damping):
    """another one, which looks at the radii and at the exponent"""

    radius_type = "r4r2"

    def _f(self, distances, radii, order, alp=16.0, only_damping=False, **_):
        if only_damping:
            return 1.0 / (1.0 + (radii / distances) ** (alp / 4.0))
        return 1.0 / (distances.pow(order) + radii.pow(2))


class FlatTerm(DispTerm):
    """a user's own term"""

    def calculate(self, numbers, positions, param, cn, model, q, r4r2, rvdw, cutoff):
        e = 1.0 + r4r2
        if self.charge_dependent:
            e = e + q
        return torch.where(numbers != 0, -0.001 * e, torch.zeros_like(e))


def pow_count(r, r0, kcn=None):
    """a user's own counting function"""
    return r0**6 / (r0**6 + r**6)


DAMP = {"plain": PlainDamping, "soft": SoftDamping, "rational": RationalDamping, "zero": ZeroDamping, "mzero": MZeroDamping,
        "op": OptimisedPowerDamping}
MODELS = {"d4": D4Model, "d4s": D4SModel, "d4sdebug": D4SDebug}


def cn_zero(numbers, positions, **_):
    return torch.zeros(numbers.shape, dtype=positions.dtype)


def cn_const(numbers, positions, **_):
    return torch.where(numbers != 0, 2.0, 0.0).type(positions.dtype)


def nest(t):
    return t.detach().tolist()


def shape_rows(rows, layout, pad, batchdims=None, value=0):
    """rows: list of 1-D (or higher) tensors, one per molecule -> single, padded 2-D or 3-D."""
    if layout == "single":
        t = rows[0]
        if pad:
            raise ValueError("single molecules are not padded")
        return t
    t = pack(rows, value=value)
    return t


def padto(t, extra, dims):
    """append `extra` padding entries along the given dimensions"""
    for d in dims:
        shp = list(t.shape)
        shp[d] = extra
        t = torch.cat((t, torch.zeros(shp, dtype=t.dtype)), dim=d)
    return t


class Inputs:
    """The tensors of a call."""

    def __init__(self, call):
        dt = DT[call["dtype"]]
        self.dtype = dt
        self.layout = call["layout"]
        self.pad = call.get("pad", 0)
        self.group = call.get("group")
        mols = call["mols"]
        self.nat = [len(m["z"]) for m in mols]
        # atom k of every molecule sits in slot cols[k] (padding may lie anywhere)
        self.cols = torch.tensor(call["cols"]) - 1 if call.get("cols") else None

        def real(x, den):
            return (torch.tensor(x, dtype=torch.float64) / den).to(dt)

        zint = torch.int32 if call.get("zint", AMBIENT.get("zint")) == "int32" else torch.int64
        Z = [torch.tensor(m["z"], dtype=zint) for m in mols]
        X = [real(m["pos"], m["den"]).reshape(-1, 3) for m in mols]
        self.numbers = self.arr(Z, [-1])
        self.positions = self.arr(X, [-2])
        fill = call.get("fill")
        if fill and (self.layout != "single" or self.pad):
            # padding rows may hold any coordinates
            mask = (self.numbers == 0).unsqueeze(-1)
            self.positions = torch.where(mask, torch.tensor(fill / 64.0, dtype=dt), self.positions)
        chg = [c / float(call.get("cden", 4)) for c in call.get("chg", [0] * len(mols))]
        if self.layout == "single":
            self.charge = torch.tensor(chg[0], dtype=dt)
        else:
            self.charge = torch.tensor(chg, dtype=dt)
        chg_as = call.get("chg_as", AMBIENT.get("chgas") if self.layout == "single" else None)
        if chg_as == "float":
            self.charge = chg[0]
        elif chg_as == "int":
            self.charge = int(chg[0])
        elif chg_as == "column":
            self.charge = self.charge.unsqueeze(-1)
        self.q = self.opt(call, "q", dt, [-1])
        self.r4r2 = self.opt(call, "r4r2", dt, [-1])
        self.vdw = self.opt(call, "vdw", dt, [-2, -1])
        self.rcov = self.opt(call, "rcov", dt, [-1])
        self.param = {}
        if "ptab" in call:             # straight from the library's table
            t = call["ptab"]
            f = t["func"].upper() if t["case"] == "upper" else t["func"]
            self.param = tad_dftd4.get_params(method=t["method"], functional=f, variant=t["var"], keep_doi=t["doi"])
        for k, v in ({} if "ptab" in call else call.get("p", {})).items():
            v = v / call.get("pden", K)
            how = call.get("p_as", AMBIENT.get("pas"))
            if how == "int":      # whole numbers as integers
                self.param[k] = int(v) if v == int(v) else v
            else:
                self.param[k] = v if how == "float" else torch.tensor(v, dtype=dt)
        self.cutoff = None
        if "cut" in call:
            kw = {k: v / 64.0 for k, v in call["cut"].items()}
            if call.get("cut_as") == "tensor":
                kw = {k: torch.tensor(v, dtype=dt) for k, v in kw.items()}
            elif call.get("cut_as") == "int":
                kw = {k: int(v) for k, v in kw.items()}
            self.cutoff = Cutoff(**kw, dtype=dt)
        if isinstance(self.charge, torch.Tensor):
            self.charge = self.grouped(self.charge)
        for k in ("numbers", "positions", "q", "r4r2", "vdw", "rcov"):
            v = getattr(self, k)
            if isinstance(v, torch.Tensor):
                setattr(self, k, lay(v, AMBIENT.get("mem")))

    def arr(self, rows, dims):
        t = rows[0] if self.layout == "single" else pack(rows, value=0)
        t = padto(t, self.pad, dims) if self.pad else t
        if self.cols is not None:
            inv = torch.argsort(self.cols)
            for d in dims:
                t = t.index_select(d, inv)
        return self.grouped(t)

    def grouped(self, t):
        """a second batch dimension"""
        if self.layout == "batch3":
            t = t.reshape(t.shape[0] // self.group, self.group, *t.shape[1:])
        return t

    def back(self, t, *dims):
        """a result with the atoms in the call's order and the padding at the end"""
        if self.cols is not None:
            for d in dims or (-1,):
                t = t.index_select(d, self.cols)
        return t

    def opt(self, call, key, dt, dims):
        if key not in call:
            return None
        den = call.get("qden", K) if key == "q" else K
        rows = [(torch.tensor(r, dtype=torch.float64) / den).to(dt) for r in call[key]]
        return self.arr(rows, dims)


def opt_kwargs(call, inp=None):
    o = call.get("opt", {})
    if not isinstance(o, dict):
        return {}
    kw = {}
    for k in ("ga", "gc", "wf"):
        if k in o:
            kw[k] = o[k] / call.get("oden", K)
    if inp is not None:
        if "wf" in kw and o.get("wf_as") == "tensor":
            kw["wf"] = torch.tensor(kw["wf"], dtype=inp.dtype)
        n = inp.numbers.shape[-1]
        i = torch.arange(1, n + 1)
        if "wfk" in o:       # weighting factor of atom i next to atom j
            wf = 5.0 + ((o["wfk"] + 3 * i.unsqueeze(-1) + 5 * i) % 9).to(torch.float64) / 4.0
            kw["wf"] = wf.expand(*inp.numbers.shape, n)
        if "rc6" in o:       # reference coefficients, symmetric under exchange of the atoms
            a = torch.arange(1, 8)
            rc6 = 1 + (o["rc6"] + 3 * (i.unsqueeze(-1) + i)[:, :, None, None] + a.unsqueeze(-1) * a) % 11
            kw["rc6"] = rc6.to(torch.float64).expand(*inp.numbers.shape, n, 7, 7)
    if "refq" in o:
        kw["ref_charges"] = o["refq"]
    return kw


def make_model(call, inp):
    """key or instance, as the call asks"""
    name = call.get("model", "d4")
    how = call.get("model_as", "key")
    if how == "key":
        return call.get("model_spelling", name)
    kw = opt_kwargs(call, inp)
    if "opt" in call.get("explicit", []) and not kw:
        kw = {"ga": 3.0, "gc": 2.0, "ref_charges": "eeq"}
        if name == "d4":
            kw["wf"] = 6.0
    return MODELS[name](inp.numbers, **kw, dtype=inp.dtype)


def make_term(t, bare=False):
    d = DAMP[t["damp"]]()
    cls = {"two": TwoBodyTerm, "atm-approx-bj": D4ATMApprox, "atm-exact-bj": D4ATMExact,
           "atm-approx-vdw": D3ATM, "flat": FlatTerm}[t["kind"]]
    kw = {"damping_fn": d, "charge_dependent": t["chg"]}
    if (bare or AMBIENT.get("bare")) and cls is not FlatTerm:
        two = t["kind"] == "two"
        if t["damp"] == ("rational" if two else "zero"):
            del kw["damping_fn"]
        if t["chg"] is two:
            del kw["charge_dependent"]
    return cls(**kw)


CNF = {"d4": (cn_d4, erf_count), "d4exp": (cn_d4, exp_count), "d3": (cn_d3, exp_count),
       "zero": (cn_zero, erf_count), "d4pow": (cn_d4, pow_count), "const": (cn_const, erf_count)}
CLASSES = {"DispD4": DispD4, "DispD4Exact": DispD4Exact, "DispD3BJ": DispD3BJ,
           "DispD3Zero": DispD3Zero}


def container(call, inp, cls=None):
    kw = {}
    how = call.get("model_as", "key")
    kw["model"] = make_model(call, inp)
    if how == "key" and opt_kwargs(call, inp):
        kw["model_kwargs"] = opt_kwargs(call, inp)
    if how == "inst" and call.get("ignored"):      # options beside an instance are ignored (with a warning)
        kw["model_kwargs"] = {"ga": 1.5, "gc": 1.25}
    expl = call.get("explicit", [])
    if "opt" in expl and how == "key" and not opt_kwargs(call, inp):
        kw["model_kwargs"] = {"ga": 3.0, "gc": 2.0, "ref_charges": "eeq"}
    if "cnf" in expl and "cnf" not in call:
        kw["cn_fn"] = cn_d4
    if "cnf" in call:
        f, c = CNF[call["cnf"]]
        how = call.get("cnf_as", "both")       # what goes without saying is left out
        if not (how == "kwargs" and f is cn_d4):
            kw["cn_fn"] = f
        if not (how == "fn" and call["cnf"] not in ("d4exp", "d4pow")):
            kw["cn_fn_kwargs"] = {"counting_function": c}
    disp = (cls or Disp)(dtype=inp.dtype, **kw)
    if cls is None:
        for t in call["terms"]:
            disp.register(make_term(t))
    return disp


def energy(call, inp):
    """Evaluate the call, returning the energy tensor."""
    api = call.get("api", "dftd4")
    over = {}
    for k, a in (("q", inp.q), ("r4r2", inp.r4r2), ("rvdw", inp.vdw), ("rcov", inp.rcov)):
        if a is not None:
            over[k] = a
    over.update(explicit_defaults(call, inp))
    expl = call.get("explicit", [])
    if api == "dftd4":
        kw = dict(over)
        if "model" in expl and "model" not in call:
            kw["model"] = "d4"
        if "cnf" in expl:
            kw["cn_function"] = cn_d4
        if "cnt" in expl:
            kw["counting_function"] = erf_count
        if "damp" in expl:
            kw["damping_function"] = RationalDamping()
        if "model" in call or "model_as" in call:
            kw["model"] = make_model(call, inp)
        if inp.cutoff is not None:
            kw["cutoff"] = inp.cutoff
        if "cnf" in call:
            f, c = CNF[call["cnf"]]
            how = call.get("cnf_as", "both")
            if not (how == "kwargs" and f is cn_d4):
                kw["cn_function"] = f
            if not (how == "fn" and c is erf_count):
                kw["counting_function"] = c
        if "damp" in call:
            kw["damping_function"] = DAMP[call["damp"]]()
        return dftd4(inp.numbers, inp.positions, inp.charge, inp.param, **kw)
    if api == "Disp" or api in CLASSES:
        disp = container(call, inp, CLASSES.get(api))
        return disp.calculate(inp.numbers, inp.positions, inp.charge, inp.param,
                              cutoff=inp.cutoff, **over)
    if api == "blocks":
        return blocks(call, inp)
    raise ValueError(api)


def explicit_defaults(call, inp):
    """the default quantities, passed explicitly"""
    from tad_dftd4.data import R4R2
    from tad_mctc.data import COV_D3, VDW_PAIRWISE

    expl = call.get("explicit", [])
    n, dd = inp.numbers.long(), {"dtype": inp.dtype}
    out = {}
    if "r4r2" in expl:
        out["r4r2"] = R4R2(**dd)[n]
    if "vdw" in expl:
        out["rvdw"] = VDW_PAIRWISE(**dd)[n.unsqueeze(-1), n.unsqueeze(-2)]
    if "rcov" in expl:
        out["rcov"] = COV_D3(**dd)[n]
    if "q" in expl:
        chg = torch.as_tensor(inp.charge, **dd)
        out["q"] = get_eeq_charges(n, inp.positions, chg.unsqueeze(-1) if n.ndim > 1 else chg)
    if "cut" in expl:
        inp.cutoff = Cutoff(disp2=60.0, disp3=40.0, cn=30.0, cn_eeq=25.0, **dd)
    if "none" in expl:
        for k in ("q", "r4r2", "rvdw", "rcov"):
            if k not in out and getattr(inp, {"rvdw": "vdw"}.get(k, k)) is None:
                out[k] = None
    return out


def blocks(call, inp, watch=None):
    """The individual public building blocks, put together by hand."""
    def held(t):
        if watch is not None and isinstance(t, torch.Tensor):
            watch.append((t, t.detach().clone()))
        return t

    dt = inp.dtype
    from tad_dftd4.data import R4R2
    from tad_mctc.data import VDW_PAIRWISE

    f, c = CNF[call.get("cnf", "d4")]
    cn = f(inp.numbers, inp.positions, counting_function=c)
    cut = inp.cutoff if inp.cutoff is not None else Cutoff(dtype=dt)
    q = inp.q
    if q is None:
        chg = torch.as_tensor(inp.charge, dtype=dt)
        chg = chg.unsqueeze(-1) if chg.ndim else chg
        q = get_eeq_charges(inp.numbers, inp.positions, chg, cutoff=cut.cn_eeq)
    model = MODELS[call.get("model", "d4")](inp.numbers, **opt_kwargs(call, inp), dtype=dt)
    n = inp.numbers
    r4r2 = inp.r4r2 if inp.r4r2 is not None else R4R2(dtype=dt)[n]
    vdw = inp.vdw if inp.vdw is not None else VDW_PAIRWISE(dtype=dt)[n.unsqueeze(-1), n.unsqueeze(-2)]
    c6 = held(model.get_atomic_c6(held(model.weight_references(held(cn), held(q)))))
    damp = DAMP[call.get("damp", "rational")]()
    held(r4r2), held(vdw)
    if call.get("as_matrix"):
        e2 = 0.5 * dispersion2(n, inp.positions, inp.param, c6, r4r2, vdw, damp, cut.disp2,
                               as_matrix=True).sum(-1)
    else:
        e2 = dispersion2(n, inp.positions, inp.param, c6, r4r2, vdw, damp, cut.disp2)
    c60 = held(model.get_atomic_c6(held(model.weight_references(cn, None))))
    ccc = torch.abs(c60.unsqueeze(-1) * c60.unsqueeze(-2) * c60.unsqueeze(-3))
    c9 = torch.where(ccc > 0, torch.sqrt(torch.where(ccc > 0, ccc, torch.ones_like(ccc))), torch.zeros_like(ccc))
    rad = inp.param.get("a1", 0.4) * torch.sqrt(3.0 * r4r2.unsqueeze(-1) * r4r2.unsqueeze(-2)) \
        + inp.param.get("a2", 5.0)
    held(c9), held(rad)
    e3 = get_atm_dispersion(n, inp.positions, c9, rad, cut.disp3, ZeroDamping(),
                            inp.param.get("s9", 1.0), inp.param.get("alp", 16.0))
    return e2 + e3


def pair_without_radii(call, inp, scheme):
    """the pair energy without van der Waals radii"""
    from tad_dftd4.data import R4R2
    model = MODELS[call.get("model", "d4")](inp.numbers, dtype=inp.dtype)
    c6 = model.get_atomic_c6(model.weight_references(cn_d4(inp.numbers, inp.positions)))
    r4r2 = R4R2(dtype=inp.dtype)[inp.numbers.long()]
    return dispersion2(inp.numbers, inp.positions, inp.param, c6, r4r2, damping_function=DAMP[scheme]())


def evaluate(call, inp):
    """the energy in the scenario's autograd mode"""
    mode = AMBIENT.get("mode")
    if mode == "nograd":
        with torch.no_grad():
            return energy(call, inp)
    if mode == "inference":
        with torch.inference_mode():
            return energy(call, inp)
    if mode == "requires":
        inp.positions = inp.positions.clone().requires_grad_(True)
        for k, v in inp.param.items():
            if isinstance(v, torch.Tensor):
                inp.param[k] = v.clone().requires_grad_(True)
    return energy(call, inp)


def observe(call):
    """Run one call; exceptions are outcomes."""
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(DT[call.get("default", AMBIENT.get("default", "float32"))])
        inp = Inputs(call)
        if call.get("api") == "blockprops":
            return observe_blockprops(call, inp)
        if call.get("api") == "props":
            return observe_props(call, inp)
        want = call.get("want", [])
        if "grad" in want:
            inp.positions = inp.positions.clone().requires_grad_(True)
            e = energy(call, inp)
        else:
            e = evaluate(call, inp)
        out = {"energy": nest(inp.back(e)), "dtype": str(e.dtype).replace("torch.", ""), "shape": list(e.shape)}
        if "grad" in want:
            if e.requires_grad:
                (g,) = torch.autograd.grad(e.sum(), inp.positions)
            else:
                g = torch.zeros_like(inp.positions)
            out["grad"] = nest(inp.back(g, -2))
            out["linked"] = e.requires_grad
            out["gdtype"] = str(g.dtype).replace("torch.", "")
        return out
    except Exception as ex:  # noqa: BLE001
        return {"err": type(ex).__name__, "msg": str(ex)[:200]}
    finally:
        torch.set_default_dtype(old)


def observe_props(call, inp):
    kw = {}
    if inp.cutoff is not None:
        kw["cutoff"] = inp.cutoff
    if "chg" in call:
        kw["charge"] = inp.charge
    cn, q, c6, al = get_properties(inp.numbers, inp.positions, **kw)
    return {"cn": nest(inp.back(cn)), "q": nest(inp.back(q)), "c6": nest(inp.back(c6, -2, -1)), "alpha": nest(inp.back(al)),
            "dtype": str(q.dtype).replace("torch.", ""),
            "dtypes": [str(t.dtype).replace("torch.", "") for t in (cn, q, c6, al)]}


def observe_blockprops(call, inp):
    """the property function's results from the public building blocks"""
    cn = cn_d4(inp.numbers, inp.positions)
    chg = torch.as_tensor(inp.charge, dtype=inp.dtype)
    q = get_eeq_charges(inp.numbers, inp.positions, chg.unsqueeze(-1) if chg.ndim else chg, cutoff=25.0)
    model = D4Model(inp.numbers, dtype=inp.dtype)
    gw = model.weight_references(cn, q)
    return {"cn": nest(cn), "q": nest(q), "c6": nest(model.get_atomic_c6(gw)),
            "alpha": nest(model.get_polarizabilities(gw)), "dtypes": [], "dtype": str(q.dtype).replace("torch.", "")}
