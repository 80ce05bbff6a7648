#!/usr/bin/env python3
"""Builds the IR tool and the cache of analysed units (the checks do the same on demand)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "sa"))
import solverir
solverir.prepare()
