"""Entry point: python runner.py ID"""
import importlib
import os
import sys
import threading
import traceback
import warnings

warnings.filterwarnings("ignore")
import vlib  # noqa: E402


def main():
  prop = sys.argv[1]
  mod = importlib.import_module(f"h_{prop.lower()}")
  c = vlib.Check(prop)

  def hung():
    c.violation("code under test could not be driven: no end", None)
    c.finish()
    os._exit(1)

  if not vlib.THOROUGH:
    w = threading.Timer(700, hung)
    w.daemon = True
    w.start()
  try:
    mod.run(c)
  except vlib.Machinery as e:
    print(f"MACHINERY: {e}")
    c.finish()
    # a violation already found stands
    return 1 if c.violations else 2
  except (Exception, vlib.Hang) as e:  # driving the code failed unexpectedly
    tb = traceback.format_exc()
    c.violation(f"code under test could not be driven: {type(e).__name__}: {e}",
                dict(traceback=tb))
    print(tb)
  return c.finish()


if __name__ == "__main__":
  rc = main()
  sys.stdout.flush()
  sys.stderr.flush()
  os._exit(rc)
