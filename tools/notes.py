TECH = {'*': 'TLA+ model checked with TLC; every generated behaviour replayed into the real code'}
NOTE = {'*': 'Exhaustive in the model within the stated bounds (exact integer arithmetic); the implementation is bound to it on the generated behaviours only, up to floating point tolerance.'}
NA = {}
