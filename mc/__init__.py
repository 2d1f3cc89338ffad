"""Bounded exhaustive exploration (explicit-state / stateless model checking)
of the real ghedt code.  See /verif/DESIGN.md."""
