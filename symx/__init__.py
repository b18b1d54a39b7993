import sys
# z3 lives in the tooling venv; append it at the END so that numpy/pandas/scipy stay the ones mlpaper uses.
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
