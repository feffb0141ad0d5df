"""pyvc: contract-based deductive verification of the real Python code in /repo.

See DESIGN.md.  The package has two halves:

* instrument.py  mechanical, semantics-preserving rewriting of /repo's current source
* core.py        path exploration, proof obligations, loop cut points and invariants
* values.py      symbolic values (z3 terms behind Python operators)
* runtime.py     what the rewritten code calls (dispatch of operations on symbolic values)
* models.py      assumed contracts on dependencies and environment stubs
"""
