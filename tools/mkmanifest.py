"""Write MANIFEST.json (the per-property texts live here)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Every obligation of the contracts is discharged from /repo's current source for all "
        "inputs and iterations. Real arithmetic is exact (no rounding, overflow or NaN); divisors "
        "are assumed non-zero; the VGPA symbolic executor/normal form, z3 and the assumed "
        "contracts on numpy/scipy are trusted. ")
RT = ("The same contract is also evaluated at run time on random inputs (bounded, reported "
      "separately, gives the replay inputs).")
NOTE = {
    "C01": "Step functions and the loop are related to the textbook step by closed forms of every "
           "time loop; any dimension and length. ",
    "C02": "As C01, backwards, with the jumps at any set of observation times. ",
    "C03": "Moments by Stein's recursion, derivatives by symbolic differentiation of the moments. ",
    "C04": "GaussianMoments is executed, not assumed; trapezoid by C14's contract. ",
    "C05": "GaussianMoments is executed, not assumed; trapezoid by C14's contract. ",
    "C06": "Diagonal noise, as the property says; trapezoid by C14's contract. ",
    "C07": "Any D >= 4; the unscented transform is called against C08's contract and the "
           "gradient routine against its own; the Cholesky factor is any L with L L^T = S. ",
    "C08": "Any dimension; the Cholesky factor is any L with L L^T = S. ",
    "C09": "Any number of observations and any dimension; R by its Cholesky factor. ",
    "C10": "Any dimension; log-determinant and inverse by C15's contract. ",
    "C11": "History is an arbitrary published state; components are opaque deterministic functions "
           "(their own properties give their meaning). ",
    "C12": "As C11. ",
    "C13": "Hoare logic over the main loop: the invariant is found by eliminating candidates that "
           "are not inductive; each obligation is proved from it on every exit. ",
    "C14": "Any window, any break list, by induction over the pieces. ",
    "C15": "The Cholesky factor is any lower triangular L with L L^T = A. ",
    "C16": "Any dimension; the function is opaque. ",
    "C17": "Generator draws are opaque standard normals; at least one observation results. ",
    "C18": "Generator draws are opaque independent standard normals. ",
    "C19": "Positive definiteness is decided by numpy's Cholesky (trusted) on the given matrix. ",
    "C20": "A generator's stream is a function of its seed; all other randomness is adversarial. ",
    "C21": "h5py files are modelled as mappings of arrays. The file name rule is proved for "
           "every name; where the code is rewritten beyond the modelled string operations it is "
           "checked on a list of names (bounded, then not counted as proved). ",
    "C22": "Components are recording contracts with the real constructors' signatures. ",
    "C23": "Exhaustive over the 512 subsets of required keys and over every letter case of the "
           "names; unknown names are opaque strings. ",
    "C24": "The cubic spline is an opaque interpolant through the points it is given. ",
}
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    pid = p["id"]
    checks.append(dict(property=pid,
                       quick_cmd="python3 check.py %s" % pid,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % pid,
                       technique="contract-based deductive verification of the executed source "
                                 "(symbolic execution to obligations; normal form + z3)",
                       level="proof", level_note=BASE + NOTE[pid] + RT))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=[]),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
