"""Generators (Hypothesis strategies), one table entry per property.

An entry is a dict: strategy (or a callable returning one), quick / thorough
(number of cases), rule (what makes a case non-trivial), assumptions.
"""
import importlib
import os

_table = {}


def entry(prop, **kw):
    _table[prop] = kw


def load(prop):
    here = os.path.dirname(os.path.abspath(__file__))
    for m in sorted(os.listdir(here)):
        if m.startswith("g_") and m.endswith(".py"):
            importlib.import_module("gen." + m[:-3])
    return _table[prop]
