"""Deterministic simulation with fault injection for qosy."""
