#!/usr/bin/env python3
"""Builds the fact extractor and, to warm the dependency build, extracts the facts once per configuration."""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
import facts

facts.build_driver()
with ThreadPoolExecutor(4) as p:
    list(p.map(facts.get, ["D", "E", "N"]))
os.makedirs(os.path.join(facts.VERIF, "evidence"), exist_ok=True)
print("ready")
