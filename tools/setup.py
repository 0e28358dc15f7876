"""setup_cmd: checks that the interpreter and packages the monitors need are there."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vmon import env  # noqa: E402

s = env.setup()
try:
    calk = env.import_calkulate()
    import matplotlib, numpy, openpyxl, pandas, PyCO2SYS, scipy  # noqa

    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    print("ready: calkulate", calk.__version__, "from", calk.__file__)
finally:
    env.cleanup(s)
