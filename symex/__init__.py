"""Symbolic execution of kamrecsys' Python code with z3."""
