"""Property-based verification of quickly. See ../DESIGN.md."""
