"""Property-based checks of py_fatigue."""
