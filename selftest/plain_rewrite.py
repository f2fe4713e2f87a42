"""Runs the repository's tests on the rewritten code with real numpy.

Shows that the AST rewriting of pyvc/load.py preserves behaviour.
Usage: /opt/venv/bin/python selftest/plain_rewrite.py
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "pyvc"))
sys.dont_write_bytecode = True

import load  # noqa: E402

sys.meta_path.insert(0, load.Finder("/repo/src", plain=True))

import pytest  # noqa: E402

sys.exit(pytest.main(["-q", "-p", "no:cacheprovider", "test", "--no-header", *sys.argv[1:]]))
