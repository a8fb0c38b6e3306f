"""rtsa -- repo-specific static analysis for TUW-GEO/rt1 (pure stdlib ``ast``).

Nothing in this package imports, executes or symbolically executes the code of
/repo; every verdict is computed from the parsed source text.
"""
