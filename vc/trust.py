TRUSTED_BASE = ['vc engine (term algebra, path exploration, symbolic numpy)', 'z3', 'CPython ast parser']
ASSUMPTIONS = ['machine arithmetic treated as real arithmetic']
PER_PROPERTY = {}
