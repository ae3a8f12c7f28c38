"""Peak memory of one calculation in a process of its own: memchild.py SPEC-JSON prints bytes before and at the peak."""
import json
import resource
import sys
import warnings

import numpy as np


def main():
    warnings.filterwarnings("ignore")
    j = json.loads(sys.argv[1])
    from vlib import gen
    import pyscal.core  # noqa: F401
    box, pos, typ = gen.config(j["seed"], j["n"], j["cell"], spacing=2.0, nt=2)
    n = len(pos)
    base = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    s = gen.make_system(box, pos, typ)
    w = j["what"]
    if w == "cells":
        s.find_neighbors(method="cutoff", cutoff=2.9)
    elif w == "voronoi":
        s.find_neighbors(method="voronoi")
    elif w == "adaptive":
        s.find_neighbors(method="cutoff", cutoff="adaptive")
    elif w == "number":
        s.find_neighbors(method="number", nmax=12, threshold=2.5)
    elif w == "solids":
        s.find_neighbors(method="cutoff", cutoff=2.9)
        s.find_solids(bonds=0.1, threshold=0.1, avgthreshold=0.0, q=6)
    elif w == "cna":
        s.calculate_cna()
    elif w in ("steinhardt", "clusters", "entropy", "sro", "chi"):
        s.find_neighbors(method="cutoff", cutoff=2.9)
        if w == "steinhardt":
            s.calculate_q([4, 6], averaged=True)
            s.get_qvals([4, 6], averaged=True)
            s.calculate_disorder(averaged=True, q=6)
        elif w == "clusters":
            s.cluster_atoms(lambda a: True, largest=True)
        elif w == "entropy":
            s.calculate_entropy(2.9, averaged=True, local=True)
        elif w == "sro":
            s.calculate_sro(reference_type=1, average=True)
        elif w == "chi":
            s.calculate_chiparams()
    elif w == "sann":
        s.find_neighbors(method="cutoff", cutoff="sann")
    elif w == "csm":
        s.calculate_centrosymmetry(nmax=8)
    elif w == "diamond":
        s.identify_diamond()
    elif w == "repeat":
        s.repeat((2, 1, 1))
    elif w == "access":
        s.find_neighbors(method="cutoff", cutoff=2.9)
        for a in s.iter_atoms():
            a.neighbors, a.neighbor_vector
        s.atoms = s.atoms
        for a in s.atoms[:50]:
            s.set_atom(a)
            s.get_distance(a, s.get_atom(3))
    elif w == "file":
        import io
        import os
        import tempfile
        import pyscal.core as pc
        f = tempfile.mktemp(dir=j["dir"])
        s.to_file(f)
        q = pc.System()
        q.read_inputfile(f)
        os.unlink(f)
    peak = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
    print(json.dumps({"n": n, "base": base * 1024, "peak": peak * 1024}))


if __name__ == "__main__":
    np.seterr(all="ignore")
    main()
