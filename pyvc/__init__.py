"""pyvc: a small deductive verifier for the Python subset booktest is written in."""
