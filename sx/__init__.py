"""sx: solver-based symbolic execution of dwave-gate (see /verif/DESIGN.md)."""
