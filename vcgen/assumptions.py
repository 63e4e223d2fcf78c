"""Assumptions common to all checks."""
ASSUME = [
    'floating-point inputs are finite (NaN and infinities excluded); obligations over floats use IEEE semantics or facts valid for it',
    'a decimal rendering of an f64 or i64 by the standard library parses back to the same number (library contract, exercised natively)',
    'standard library functions listed under library_models behave as documented',
    'memory allocation does not fail; stack depth is sufficient',
    'the lengths and counts of the texts and lists in one execution stay below 2^58 each (memory of a 64-bit machine)',
    'debug-build semantics: integer overflow is a panic obligation',
]
