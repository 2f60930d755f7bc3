"""P13: export and resynthesis use the same ranked modes."""
import json
import random

import numpy as np
import vlib
from sample import sample as smp
from sample.beatsdrop import sample as bds

ORDERS = ["energies", "freqs", "amps", "decays"]
X = np.arange(160) / 80.


def one(rng, big=False):
  """One mode table"""
  beats = rng.random() < .5
  n = rng.choice([0, 0, 1, 2, 3, 4, 5, 6]) if not big else 9
  modes, seen = [], set()
  while len(modes) < n:
    f, d = rng.randint(1, 14), rng.randint(1, 4)
    if rng.random() < .1:
      d = -d
    if (f, d) in seen:
      continue
    seen.add((f, d))
    modes.append(dict(f=f, d=d, a=rng.choice([0, 1, 1, 2, 2, 3, 4])))
  phases = [rng.uniform(0, 6) for _ in modes]
  limit = rng.choice([-1, -1, 0, 1, 2, n, n + 2])
  arg = rng.choice([-1, -1, 0, 1, 2, 3, n, n + 1])
  order, reverse = rng.choice(ORDERS), rng.random() < .5
  cls = bds.SAMPLEBeatsDROP if beats else smp.SAMPLE
  out = dict(modes=modes, order=order, reverse=reverse, limit=limit, n=arg,
             err="", json=True, rank=[], exp={}, heard=[0] * n, clean=True)
  kw = {}
  if not (order == "energies" and reverse and rng.random() < .5):
    kw = dict(order=order, reverse=reverse)

  def drive():
    m = cls(max_n_modes=None if limit == -1 else limit)
    rows = [[q["f"] for q in modes], [q["d"] for q in modes],
            [q["a"] for q in modes]] + ([phases] if beats else [])
    m.param_matrix_ = np.array(rows, dtype=float).reshape(len(rows), n)
    keep = m.param_matrix_.copy()
    out["rank"] = [int(i) + 1 for i in m.mode_argsort_(**kw)]
    e = m.sdt_params_(**kw)
    try:
      e2 = json.loads(json.dumps(e))
    except (TypeError, ValueError):
      out["json"] = False
      e2 = e
    w = np.ravel(e2["weights"])
    out["exp"] = dict(
        nModes=vlib.xint(e2["nModes"]), activeModes=vlib.xint(e2["activeModes"]),
        freqs=[vlib.xint(v) for v in e2["freqs"]],
        decays=[vlib.xint(v) for v in e2["decays"]],
        gains=[[vlib.xint(v) for v in g] for g in e2["gains"]],
        weights=bool(w.size == n and (n == 0 or (
            abs(w.sum() - 1) < 1e-9 and np.ptp(w) < 1e-12))))
    pk = {}
    ph = np.array(phases) if beats else np.zeros(n)
    how = rng.choice(["own", "array", "list", "none"])
    if how in ("array", "list"):
      ph = np.array([rng.uniform(0, 6) for _ in modes])
      pk["phases"] = ph.copy() if how == "array" else ph.tolist()
    elif how == "none":
      ph = np.zeros(n)
      pk["phases"] = None
    if arg != -1:
      pk["n_modes"] = arg
    ana = rng.random() < .3
    if ana:
      pk["analytic"] = True
    for t in (X[:1], X[0], X[:0], X):
      if np.shape(m.predict(t, **pk, **kw)) != np.shape(t):
        out["clean"] = False
    y = np.ravel(m.predict(X, **pk, **kw))
    arg_ = 2 * np.pi * np.outer(X, rows[0]) + ph[None, :] if n else \
        np.zeros((X.size, 0))
    b = np.exp(1j * arg_) if ana else np.cos(arg_)
    b = b * np.exp(-2 * X[:, None] / np.array(rows[1], dtype=float)[None, :]) \
        * np.array(rows[2], dtype=float)[None, :]
    live = [i for i, q in enumerate(modes) if q["a"]]
    c, heard = np.zeros(0), [0] * n
    if y.shape != X.shape:
      out["clean"] = False
      return
    if live:
      c = np.linalg.lstsq(b[:, live], y, rcond=None)[0]
      for i, v in zip(live, c):
        heard[i] = int(round(v.real)) if abs(v - round(v.real)) < 1e-3 else -9
    z = b[:, live] @ np.array([heard[i] for i in live]) if live else 0
    out["clean"] = out["clean"] and bool(np.allclose(y, z, atol=1e-5 * (1 + np.abs(y).max()))
                        and np.array_equal(keep, m.param_matrix_))
    out["heard"] = heard

  ok, r = vlib.attempt(drive)
  if not ok:
    out["err"] = r
  return out


def run(c):
  """Drive and validate"""
  c.design("MC_Rank.tla", "MC_Rank.cfg")
  rng = random.Random(f"p13-{vlib.SEED}")
  tr = [one(rng, i % 50 == 0) for i in range(15000 if vlib.THOROUGH else 1500)]
  c.validate("RankTrace.tla", tr, label="ranked modes")
