"""The verification-condition engine: exact symbolic execution of /repo's own
source with real-valued, arbitrary-size arrays, loop summaries, and a prover
for the resulting identities (index calculus + z3)."""
