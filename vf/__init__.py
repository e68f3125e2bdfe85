"""Solver-based symbolic checking of ripplegw (see DESIGN.md)."""
