"""Assumptions shared by the deductive part of every check; each run copies them into its evidence."""
REALS = 'floating point numbers are treated as real numbers: rounding, overflow and NaN are outside the proofs'
DENOM = 'denominators do not vanish and arguments of log and sqrt are positive where the contract divides by them'
EXTRACTION = ('extraction: every brainstorm module is compiled from /repo on this run with `for` statements turned into calls of the loop rule and with '
              'int/float/range/len/min/max/sum/abs/round/np looked up in shadows that fall through to the originals on concrete values; nothing is dropped')
NUMPY = 'numpy indexing, reshape, broadcasting, in-place arithmetic and reductions follow engine/tensor.py and engine/npx.py (assumed contracts on numpy)'
HANDLER = 'numeric operations obey the contracts in engine/handler.py; check C07 proves every NumpyHandler body against the same contracts'
KERNEL = 'the engine itself (engine/poly.py normal form, engine/prover.py, z3) is trusted; every accepted equality is also evaluated at random points and must be rejected once perturbed'
