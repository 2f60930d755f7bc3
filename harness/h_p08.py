"""P08: a fit depends only on its input and parameters."""
import copy
import random

import fits
import vlib

NONE = dict(t=-1, cap=-1, save=-1, rev=-1)


def history(rng, kind, canon, fresh, real=False):
  """One history of one model object"""
  p = dict(t=rng.randint(0, 1), cap=rng.randint(0, 1), save=rng.randint(0, 1),
           rev=rng.randint(0, 1))
  m = fits.build(kind, p, real)
  init = dict(p)
  events, used = [], {}

  def delta():
    d = dict(NONE)
    for k in rng.sample(sorted(d), rng.choice([0, 1, 1, 2])):
      d[k] = rng.randint(0, 1)
    return d

  def get_fresh(x):
    key = (kind, real, tuple(sorted(p.items())), x)
    if key not in fresh:
      fits.Plan.arm()
      f = fits.build(kind, p, real)
      ok, r = vlib.attempt(lambda: fits.visible(f.fit(fits.sound(x))), secs=60)
      fresh[key] = (canon(r), r) if ok else (0, {})
    used[key] = dict(p=dict(p), x=x, seen=fresh[key][0])
    return fresh[key]

  xs = [0, 1, 2, 3, 4] if not real else [1]
  for _ in range(rng.randint(3, 7) if not real else 3):
    op = rng.choice(["set", "fit", "fit", "fit", "fit", "fail", "fail",
                     "clone", "touch"])
    if op == "set":
      d = delta()
      ok, r = vlib.attempt(fits.set_params, m, kind, d)
      p.update({k: v for k, v in d.items() if v != -1})
      events.append(dict(op="set", p=d, x=0, fail=False,
                         out="ok" if ok else r, seen=0, diff="", own=True))
    elif op == "touch":
      def touch(m=m):
        k = rng.randint(0, 4)
        if k == 0:
          m.sinusoidal.intermediate.reset()
        elif k == 1:
          m.sinusoidal.tracker.reset()
        elif k == 2:
          return copy.deepcopy(m)
        elif k == 3 and hasattr(m, "param_matrix_"):
          m.param_matrix_ = m.param_matrix_ * 0
        elif hasattr(m, "param_matrix_"):
          m.sinusoidal.tracks_  # pylint: disable=W0104
          m.predict(fits.np.arange(4.))
        return m
      ok, r = vlib.attempt(touch)
      m = r if ok else m
      events.append(dict(op="set", p=dict(NONE), x=0, fail=False,
                         out="ok" if ok else r, seen=0, diff="", own=True))
    elif op == "clone":
      ok, r = vlib.attempt(fits.clone, m)
      seen = 0
      if ok:
        m = r
        seen = 0 if fits.nothing_learned(m) else 1
      events.append(dict(op="clone", p=dict(NONE), x=0, fail=False,
                         out="ok" if ok else r, seen=seen, diff="", own=True))
    else:
      x = rng.choice(xs)
      d = delta() if rng.random() < .5 else dict(NONE)
      p.update({k: v for k, v in d.items() if v != -1})
      fr = get_fresh(x)
      fits.Plan.arm()
      if op == "fail":
        fits.Plan.arm(*rng.choice([("frame", 0), ("frame", 3), ("track", 0),
                                   ("track", 1), ("beat", 0)]))
      ok, r = vlib.attempt(lambda: m.fit(  # pylint: disable=W0640
          fits.sound(x), **fits.set_kwargs(kind, d)), secs=60)
      failed = op == "fail" and fits.Plan.stage is None
      fits.Plan.arm()
      seen, diff = 0, ""
      if ok and not failed:
        ok, r = vlib.attempt(fits.visible, m)
        if ok:
          seen, diff = canon(r), fits.difference(r, fr[1])
      events.append(dict(op="fit", p=d, x=x, fail=failed,
                         out="ok" if ok else r, seen=seen, diff=diff, own=True))
  return dict(kind=kind, init=init, fresh=list(used.values()), events=events)


def analysis(rng, canon):
  """One history of a sinusoidal model alone, handed objects that were used"""
  p = {k: rng.randint(0, 1) for k in NONE}
  init, used, events = dict(p), {}, []

  def model(q):
    return fits.build("plain", q).sinusoidal

  def seen(m):
    return dict(tracks=[dict(t) for t in m.tracks_],
                saved=m.intermediate.get_state())

  def fitted(q, x):
    fits.Plan.arm()
    ok, m = vlib.attempt(lambda: model(q).fit(fits.sound(x)), secs=60)
    ok, r = vlib.attempt(seen, m) if ok else (False, m)
    return m, (canon(r), r) if ok else (0, {})

  m = model(p)
  for _ in range(rng.randint(2, 4)):
    x, d, kw = rng.choice([0, 1, 2, 4]), dict(NONE), {}
    for k in rng.sample(sorted(d), rng.choice([0, 1, 2])):
      d[k] = rng.randint(0, 1)
    p.update({k: v for k, v in d.items() if v != -1})
    kw = {k.partition("__")[2]: v for k, v in fits.kwargs_of(d).items()}
    hand = rng.choice(["", "intermediate", "tracker", "both", "set"])
    if hand:
      other, _ = fitted(p, rng.choice([0, 1]))
      obj = {}
      if hand != "tracker":
        obj["intermediate"] = other.intermediate
      if hand != "intermediate":
        obj["tracker"] = other.tracker
      if hand == "set":
        m.set_params(**obj)
      else:
        kw.update(obj)
    _, fr = fitted(p, x)
    used[tuple(sorted(p.items())), x] = dict(p=dict(p), x=x, seen=fr[0])
    ok, r = vlib.attempt(lambda: m.fit(  # pylint: disable=W0640
        fits.sound(x), **kw), secs=60)
    out, sn, diff = "ok", 0, ""
    if ok:
      ok, r = vlib.attempt(seen, m)
    if ok:
      sn, diff = canon(r), fits.difference(r, fr[1])
    else:
      out = r
    events.append(dict(op="fit", p=d, x=x, fail=False, out=out, seen=sn,
                       diff=diff, own=True))
  return dict(kind="analysis", init=init, fresh=list(used.values()),
              events=events)


def run(c):
  """Drive and validate"""
  c.design("MC_FitHistory.tla", "MC_FitHistory.cfg")
  rng = random.Random(f"p08-{vlib.SEED}")
  canon, fresh = fits.Canon(), {}
  n = 1500 if vlib.THOROUGH else 160
  tr = []
  for i in range(n):
    tr.append(history(rng, "beats" if i % 2 else "plain", canon, fresh))
  for _ in range(12 if vlib.THOROUGH else 1):
    tr.append(history(rng, "beats", canon, fresh, real=True))
  tr += [analysis(rng, canon) for _ in range(n)]
  c.validate("FitHistoryTrace.tla", tr, label="history")
  c.extra["fresh_fits"] = len(fresh)
  c.extra["distinct_results"] = len(canon.values)
  c.extra["failed_fits"] = sum(e["fail"] for t in tr for e in t["events"])
