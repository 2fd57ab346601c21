"""Freeze the element tables of the pinned commit as constants of the specification.

Run once (already done; the results are committed under spec/data).  The
checks never call this: the tables they use are the committed ones.
"""
import json, os, sys
import torch
import tomllib
OUT = sys.argv[1]
N = 103
D = torch.double
from tad_dftd4.reference import d4 as r
from tad_dftd4.reference.d4 import charge_eeq as ce, charge_gfn2 as cg
import tad_dftd4.data as data
from tad_dftd4.data.wfpair import WFPAIR
from tad_mctc.data import VDW_PAIRWISE, COV_D3
from tad_mctc.data.en import PAULING
from tad_multicharge.model.eeq import EEQModel
eeq = EEQModel.param2019(dtype=D)
Z = slice(1, N + 1)
def fl(x):
    return [fl(y) for y in x] if isinstance(x, list) else float(x)
t = dict(
  refc=r.refc[Z].tolist(), refcn=fl(r.refcovcn[Z].tolist()),
  q_eeq=fl(ce.clsq[Z].tolist()), h_eeq=fl(ce.clsh[Z].tolist()),
  q_gfn2=fl(cg.refq[1:87].tolist()), h_gfn2=fl(cg.refh[1:87].tolist()),
  refsys=r.refsys[Z].tolist(), refascale=fl(r.refascale[Z].tolist()),
  refscount=fl(r.refscount[Z].tolist()), refalpha=fl(r.refalpha[Z].tolist()),
  secscale=fl(r.secscale[1:18].flatten().tolist()), secalpha=fl(r.secalpha[1:18].tolist()),
  zeff=fl(data.ZEFF()[Z].tolist()), gam=fl(data.GAM(dtype=D)[Z].tolist()),
  r4r2=fl(data.R4R2(dtype=D)[Z].tolist()),
  wfpair=fl(WFPAIR(dtype=D)[Z, Z].tolist()),
  cov=fl(COV_D3(dtype=D)[Z].tolist()), en=fl(PAULING(dtype=D)[Z].tolist()),
  vdw=fl(VDW_PAIRWISE(dtype=D)[Z, Z].tolist()),
  eeq_chi=fl(eeq.chi[Z].tolist()), eeq_kcn=fl(eeq.kcn[Z].tolist()),
  eeq_eta=fl(eeq.eta[Z].tolist()), eeq_rad=fl(eeq.rad[Z].tolist()),
  quad=[2.49995e-2,4.99995e-2,7.5e-2,.1,.1,.1,.1,.1,.1,.1,.1,.15,.2,.2,.2,.2,.35,.5,.75,1.0,1.75,2.5,1.25],
)
json.dump(t, open(os.path.join(OUT, "tables.json"), "w"), separators=(",", ":"))
par = {}
for m in ("d3", "d4"):
    tt = tomllib.load(open(f"/repo/src/tad_dftd4/damping/parameters/{m}.toml", "rb"))
    ent = lambda b: [[k, (float(v) if not isinstance(v, str) else v)] for k, v in sorted(b.items())]
    par[m] = dict(default=tt["default"][m][0],
      defaults=[[v, ent(b)] for v, b in tt["default"]["parameter"][m].items()],
      functionals=[[f, [[v, ent(b)] for v, b in sec.get(m, {}).items()]] for f, sec in tt["parameter"].items()])
json.dump(par, open(os.path.join(OUT, "params.json"), "w"), separators=(",", ":"))
print(len(par["d3"]["functionals"]), len(par["d4"]["functionals"]))
