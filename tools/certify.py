"""Recompute data/irreducible.txt: the polynomials of the tables in /repo that are irreducible (used to skip known tests)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import gf2
from multiprocessing import Pool
src = open(os.environ.get("ECGEN_REPO", "/repo") + "/src/math/poly.c").read()
e = sorted({tuple(sorted({0, *map(int, x.split(","))}, reverse=True)) for x in re.findall(r"\{\s*(\d+(?:\s*,\s*\d+)+)\s*\}", src)})
with Pool(8) as p:
    r = p.map(gf2.irreducible, e, chunksize=16)
bad = [x for x, ok in zip(e, r) if not ok]
print(len(e), "polynomials,", len(bad), "reducible", bad[:10])
os.makedirs(os.path.dirname(gf2.CERT), exist_ok=True)
open(gf2.CERT, "w").write("".join(gf2.key(x) + "\n" for x, ok in zip(e, r) if ok))
