"""Bounded model checking of NodeFinder (see /verif/DESIGN.md)."""
