"""Property-based testing machinery for VolterraBasis (see ../DESIGN.md)."""
