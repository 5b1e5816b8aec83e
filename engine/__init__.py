"""Deductive verifier for the pyirf sources: see /verif/DESIGN.md."""
