"""setup: nothing to compile; checks that the framework can load the code under test and that its oracle is consistent"""
import os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo")); sys.path.insert(0, ROOT)
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
from decimal import Decimal as D
from vlib.simlib import RefOrder, optimal
import carbon
o = RefOrder(0, None, "USDC", "ETH", "USDC", D(1000), D(2000), D(3000), D(5000))
dx = o.dx_of_dy(D(1234))
assert abs(o.dy_of_dx(dx) - 1234) < D("1e-30"), "curve oracle: inversion"
assert D(1000) <= 1234 / dx <= o.pmarg(), "curve oracle: price range"
p = RefOrder(1, None, "USDC", "ETH", "USDC", D(1500), D(1500), D(100), D(100))
alloc, oy, ox, full = optimal([o, p], D(50), True)
assert full and abs(oy - 50) < D("1e-20"), "matching oracle"
print("carbon", carbon.__version__, "loaded from", os.path.dirname(carbon.__file__), "- oracle ok")
