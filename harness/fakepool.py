"""A process pool whose completion order is chosen by the harness.

Tasks travel through pickle as they would to another process and run when the
schedule says so; results and errors travel back the same way."""
import pickle


class Result:
  """Like multiprocessing.pool.AsyncResult"""

  def __init__(self, pool, n, gather):
    self.pool, self.tasks, self.gather = pool, n, gather

  def ready(self):
    """Whether it has ended; sometimes time passes"""
    if self.pool.rng.random() < .2:
      self.pool.step()
    return all(t in self.pool.ended for t in self.tasks)

  def wait(self, timeout=None):
    """Time passes"""
    if timeout is None:
      while not all(t in self.pool.ended for t in self.tasks):
        self.pool.step()
    else:
      for _ in range(self.pool.rng.choice([1, 1, 1, 2, 3])):
        self.pool.step()

  def successful(self):
    """As in multiprocessing"""
    if not all(t in self.pool.ended for t in self.tasks):
      raise ValueError("not ready")
    return all(self.pool.ended[t][0] for t in self.tasks)

  def get(self, timeout=None):
    """Result or error"""
    self.wait(None)
    out = []
    for t in self.tasks:
      ok, v = self.pool.ended[t]
      v = pickle.loads(v)
      if not ok:
        raise v
      out.append(v)
    return self.gather(out)


class FakePool:
  """Controlled pool; order: preferred completion order of task numbers"""

  def __init__(self, rng, order=()):
    self.rng = rng
    self.order = list(order)
    self.pending = {}
    self.ended = {}
    self.finish_order = []
    self.n = 0
    self._processes = 2

  def _put(self, func, args, kwds, callback=None, error_callback=None):
    t = self.n
    self.n += 1
    self.pending[t] = (pickle.dumps((func, args, kwds or {})), callback,
                       error_callback)
    return t

  def step(self):
    """One task ends"""
    if not self.pending:
      return
    for t in self.order:
      if t in self.pending:
        break
      if t >= self.n:
        t = self.rng.choice(sorted(self.pending))
        break
    else:
      t = self.rng.choice(sorted(self.pending))
    data, callback, error_callback = self.pending.pop(t)
    func, args, kwds = pickle.loads(data)
    try:
      ok, v = True, func(*args, **kwds)
    except Exception as e:  # pylint: disable=W0703
      ok, v = False, e
    self.ended[t] = (ok, pickle.dumps(v))
    self.finish_order.append(t)
    if ok and callback:
      callback(v)
    if not ok and error_callback:
      error_callback(v)

  # -- interface of multiprocessing.Pool
  def apply_async(self, func, args=(), kwds=None, callback=None,
                  error_callback=None):
    """As in multiprocessing"""
    return Result(self, [self._put(func, args, kwds, callback,
                                   error_callback)], lambda r: r[0])

  def apply(self, func, args=(), kwds=None):
    """As in multiprocessing"""
    return self.apply_async(func, args, kwds).get()

  def starmap_async(self, func, iterable, chunksize=None, callback=None,
                    error_callback=None):
    """As in multiprocessing"""
    r = Result(self, [self._put(func, tuple(a), None) for a in iterable], list)
    if callback or error_callback:
      try:
        v = r.get()
      except Exception as e:  # pylint: disable=W0703
        if error_callback:
          error_callback(e)
      else:
        if callback:
          callback(v)
    return r

  def starmap(self, func, iterable, chunksize=None):
    """As in multiprocessing"""
    return self.starmap_async(func, iterable).get()

  def map_async(self, func, iterable, chunksize=None, callback=None,
                error_callback=None):
    """As in multiprocessing"""
    return self.starmap_async(func, ((a,) for a in iterable), None, callback,
                              error_callback)

  def map(self, func, iterable, chunksize=None):
    """As in multiprocessing"""
    return self.map_async(func, iterable).get()

  def imap(self, func, iterable, chunksize=1):
    """As in multiprocessing"""
    rs = [Result(self, [self._put(func, (a,), None)], lambda r: r[0])
          for a in iterable]
    return (r.get() for r in rs)

  def imap_unordered(self, func, iterable, chunksize=1):
    """As in multiprocessing"""
    rs = {r.tasks[0]: r for r in (
        Result(self, [self._put(func, (a,), None)], lambda r: r[0])
        for a in iterable)}
    seen = 0
    while seen < len(rs):
      mine = [t for t in self.finish_order if t in rs]
      if len(mine) <= seen:
        self.step()
        continue
      yield rs[mine[seen]].get()
      seen += 1

  def close(self):
    """As in multiprocessing"""

  terminate = join = close

  def __enter__(self):
    return self

  def __exit__(self, *args):
    return None


