"""pydv: a small deductive verifier for the numpy subset of Python used by /repo/src/lop."""
