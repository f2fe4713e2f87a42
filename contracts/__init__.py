"""Contracts of the verified functions, stated as theorems.

A theorem assumes the preconditions, calls the real functions and checks the
postconditions.  pyvc/symbolic.py interprets it over all inputs, pyvc/concrete.py
over given or random inputs on the unmodified code.
"""
from __future__ import annotations

import importlib
import pkgutil

THEOREMS = []


class Theorem:
    def __init__(self, name, props, functions, fn, budget, small, concrete, thorough_only, bounded):
        self.name, self.props, self.functions, self.fn, self.budget, self.small = name, props, functions, fn, budget, small
        self.concrete, self.thorough_only = concrete, thorough_only
        self.bounded = bounded  # the structures it is stated for, where these are not arbitrary


def theorem(*props, functions, budget=100, small=(0, 1, 2, 3), concrete=True, thorough_only=False, bounded=None):
    def deco(fn):
        THEOREMS.append(Theorem(fn.__name__, props, functions, fn, budget, small, concrete, thorough_only, bounded))
        return fn

    return deco


def load():
    if not THEOREMS:
        for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
            importlib.import_module(f"contracts.{m}")
    return THEOREMS


def of_property(prop):
    return [t for t in load() if prop in t.props]
