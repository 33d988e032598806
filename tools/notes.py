DEFAULT_NOTE = ('Every obligation generated from the current source is discharged for all real-valued inputs, all section counts and all loop '
                'iterations. Trusted: the verification-condition generator in vc/ (cross-checked against CPython on random inputs each run), z3, '
                'and the assumed contracts of numpy and of the standard library. Machine arithmetic is treated as real arithmetic.')
