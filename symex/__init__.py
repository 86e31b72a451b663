"""Solver-based symbolic execution of real Python code (see DESIGN.md)."""
