"""Reference implementations, written from the standards and formulas."""
