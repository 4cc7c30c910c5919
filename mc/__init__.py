"""Bounded exhaustive exploration of pyclustering (see DESIGN.md)."""
