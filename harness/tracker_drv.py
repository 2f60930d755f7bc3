"""Driving the real sinusoidal trackers with frames of integer peaks."""
import json
import random

import numpy as np

import vlib
from sample.sms import mm, sm

BASE = dict(kind="modal", cap=3, off=2, sn=0, sd=1, durn=0, durd=1, fs=2, h=1,
            haslo=False, lo=0, hashi=False, hi=0, th=-1000, rev=False,
            hasstrip=False, stripn=0, stripd=1, merge="average")


class OpenSine(sm.SineTracker):
  """Sine tracker to which every track is clean: shows everything it tracks"""

  def track_ok(self, track):
    return True


class OpenModal(mm.ModalTracker):
  """Modal tracker to which every track is clean"""

  def track_ok(self, track):
    return True


# Frequencies and levels are integers times a power of two, so that whatever
# is computed from them is scaled, too
UNITS = [(1, 1), (1, 1), (1, 2 ** -4), (2 ** -5, 1), (16, 2 ** -7),
         (2 ** -6, 2 ** -6)]

UNIT_RND = random.Random(vlib.SEED)


def make(c, uf=1, um=1):
  """Tracker for a configuration"""
  kw = dict(fs=c["fs"], h=c["h"], max_n_sines=c["cap"],
            min_sine_dur=c["durn"] / c["durd"],
            freq_dev_offset=c["off"] * uf, freq_dev_slope=c["sn"] / c["sd"])
  if c["merge"] != "none":
    kw.update(reverse=c["rev"], merge_strategy=c["merge"],
              frequency_bounds=(c["lo"] * uf if c["haslo"] else None,
                                c["hi"] * uf if c["hashi"] else None),
              peak_threshold=c["th"] * um,
              strip_t=c["stripn"] / c["stripd"] if c["hasstrip"] else None)
    cls = OpenModal if c["kind"] == "open" else mm.ModalTracker
  else:
    cls = OpenSine if c["kind"] == "open" else sm.SineTracker
  return cls(**kw)


def is_nan(x):
  """Whether x is not a number"""
  return not x == x


def project(t, uf=1, um=1):
  """Abstract track; what cannot be abstracted becomes a sentinel"""
  f, m, p = (np.asarray(t[k]).ravel() for k in ("freq", "mag", "phase"))
  f, m = f / uf, m / um
  n = max(f.size, m.size, p.size)
  pts = []
  for i in range(n):
    if i >= min(f.size, m.size, p.size):
      pts.append(dict(f=vlib.BAD, m=vlib.BAD, id=vlib.BAD))
    elif is_nan(f[i]) and is_nan(m[i]) and is_nan(p[i]):
      pts.append(dict(f=0, m=0, id=0))
    else:
      pts.append(dict(f=vlib.xint(f[i]), m=vlib.xint(m[i]),
                      id=vlib.xint(p[i])))
  return dict(start=vlib.xint(t["start_frame"]), pts=pts)


def record(c, hist, tracker=None):
  """Feed the frames, observing the tracker after each one"""
  uf, um = UNIT_RND.choice(UNITS) if tracker is None else (1, 1)
  ok, t = vlib.attempt(make, c, uf, um) if tracker is None else (True, tracker)
  if ok:
    ok, e = vlib.attempt(t.reset)
  events = []
  if not ok:
    return dict(cfg=c, events=[dict(peaks=[], nact=0, pub=[], tracks=[],
                                    err=str(t))])
  for pk in hist:
    def frame(pk=pk):
      f = np.array([p["f"] for p in pk], dtype=float) * uf
      m = np.array([p["m"] for p in pk], dtype=float) * um
      h = np.array([p["id"] for p in pk], dtype=float)
      t(f, m, h)
      # a second look must not change what the next one sees
      list(t.all_tracks_)
      return (int(t.n_active_tracks), [project(x, uf, um) for x in t.tracks_],
              [project(x, uf, um) for x in t.all_tracks_])

    ok, r = vlib.attempt(frame)
    if not ok:
      events.append(dict(peaks=pk, nact=0, pub=[], tracks=[], err=r))
      break
    events.append(dict(peaks=pk, nact=r[0], pub=r[1], tracks=r[2], err=""))
  return dict(cfg=c, events=events)


def number(frames):
  """Give unique identities to the peaks of a list of frames of (f, m)"""
  out, k = [], 0
  for fr in frames:
    o = []
    for f, m in fr:
      k += 1
      o.append(dict(f=f, m=m, id=k))
    out.append(o)
  return out


def random_hist(rng, n, peaks, fmax, mmax, distinct=True):
  """Unstructured frames"""
  frames = []
  for _ in range(n):
    k = rng.randint(0, peaks)
    fs = rng.sample(range(1, fmax + 1), min(k, fmax)) if distinct else \
        [rng.randint(1, fmax) for _ in range(k)]
    if rng.random() < .8:
      fs.sort()
    frames.append([(f, rng.randint(0, mmax)) for f in fs])
  return number(frames)


def partials_hist(rng, n, k, fmax, spread=8, drop=.2, jitter=1, slope=(-3, 1)):
  """Frames made of partials that decay, drop out and come back"""
  ps = []
  for _ in range(k):
    start = rng.randint(0, n // 2)
    ps.append(dict(f=rng.randint(1, fmax), m=rng.randint(0, 40), s=start,
                   e=rng.randint(start, n), d=rng.randint(*slope),
                   b=rng.random() * drop))
  frames = []
  for i in range(n):
    fr = {}
    for p in ps:
      if not p["s"] <= i <= p["e"]:
        continue
      if p.get("gap", 0):
        p["gap"] -= 1
        continue
      if rng.random() < p["b"]:
        p["gap"] = rng.choice([0, 0, 1, 2])
        continue
      f = max(1, p["f"] + rng.randint(-jitter, jitter))
      fr[f] = p["m"] + p["d"] * (i - p["s"]) + rng.choice((0, 0, 0, 1, -1))
    fs = sorted(fr)
    if rng.random() < .1:
      rng.shuffle(fs)
    frames.append([(f, fr[f]) for f in fs])
  return number(frames)


def tlc_hists(num, depth=9):
  """Behaviours of the tracker specification generated by TLC"""
  r = vlib.run_tlc("MC_Tracker.tla", "MC_TrackerSim.cfg", workers=1,
                   simulate=f"num={num}", depth=depth, seed=vlib.SEED)
  # TLC prints every successor of the last state: keep two per behaviour
  by = {}
  for x in r["printed"]:
    if "hist" in x:
      k = json.dumps((x["c"], x["hist"][:-1]), sort_keys=True)
      h = by.setdefault(k, [])
      if x not in h:
        h.append(x)
  rng = rng_for("tlc")
  return [x for h in by.values() for x in rng.sample(h, min(2, len(h)))]


def rng_for(name):
  """Seeded generator private to a purpose"""
  return random.Random(f"{name}-{vlib.SEED}")
