"""Deterministic simulation with fault injection for tad-dftd4."""
