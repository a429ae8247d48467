"""Stand-in for the external package `polyntt` (not available offline): exact arithmetic modulo x^n+1 and q.

Written from the project's use of the package; the transform order (bit-reversed powers of psi, the one used on
chain) is validated by the checks against the C library and the Solidity sources.
"""
