"""Deterministic simulation of simple-einet (see /verif/DESIGN.md)."""
