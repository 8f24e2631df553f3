"""dv: a small deductive verifier for the Python/JAX subset used by skillmodels."""
