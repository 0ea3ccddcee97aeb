"""Bounded model checking of probayes: exhaustive exploration of the real code."""
