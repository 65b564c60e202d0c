"""Dispatch of a case to the oracle of its property."""
import importlib
import pkgutil
import os

TABLE = {}


def register(prop):
    def deco(fn):
        TABLE[prop] = fn
        return fn
    return deco


def load():
    here = os.path.dirname(os.path.abspath(__file__))
    for m in sorted(os.listdir(here)):
        if m.startswith("o_") and m.endswith(".py"):
            importlib.import_module(m[:-3])


def run(prop, case):
    if not TABLE:
        load()
    info = TABLE[prop](case) or {}
    info.setdefault("labels", [])
    info.setdefault("nontrivial", True)
    info["ok"] = True
    return info
