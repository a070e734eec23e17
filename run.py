#!/usr/bin/env python3
"""python3 run.py ID [--replay FILE] [--tier quick|thorough] [--seed N]"""
import argparse
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

from pbt import core  # noqa: E402

p = argparse.ArgumentParser()
p.add_argument('id')
p.add_argument('--replay')
p.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
p.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
a = p.parse_args()
mod = importlib.import_module('checks.' + a.id.lower())
sys.exit(core.run_check(mod.C(), a.tier, a.seed, a.replay))
