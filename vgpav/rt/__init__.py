"""Run-time contract checks: the contracts of the properties, evaluated on the
real code with concrete inputs.  They replay the verifier's refutations and
cross-check its model of Python/NumPy.  Every property module offers

    gen(rng, tier)  -> iterator of JSON-able cases
    check(case)     -> None, or raises Fail (the contract is broken)
"""
