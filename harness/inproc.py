"""Multiprocessing managers served by threads of this process.

Automatic garbage collection is off meanwhile: run in a serving thread, it may
finalise a proxy, which calls that same server."""
import contextlib
import gc
import itertools
import threading
from multiprocessing import managers


_COUNT = itertools.count()


def _start(self, initializer=None, initargs=()):
  if initializer is not None:
    initializer(*initargs)
  if next(_COUNT) % 20 == 0:
    gc.collect()
  server = self.get_server()
  server.stop_event = threading.Event()

  def accept():
    while not server.stop_event.is_set():
      try:
        c = server.listener.accept()
      except OSError:
        continue
      t = threading.Thread(target=server.handle_request, args=(c,))
      t.daemon = True
      t.start()

  for _ in range(2):
    t = threading.Thread(target=accept)
    t.daemon = True
    t.start()
  self._address = server.address
  self._state.value = managers.State.STARTED
  self.shutdown = server.stop_event.set


@contextlib.contextmanager
def inproc_managers():
  """Managers started in the body run in threads of this process"""
  old = managers.BaseManager.start
  managers.BaseManager.start = _start
  gc.disable()
  try:
    yield
  finally:
    gc.enable()
    managers.BaseManager.start = old
