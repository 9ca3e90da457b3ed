"""pyver: a contract-based deductive verifier for the NumPy subset of Python used by TensorKit."""
