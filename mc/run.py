#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/mc'        # never read stale bytecode
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--replay')
args = ap.parse_args()

import core                                                     # noqa: E402
check = importlib.import_module('props.'+args.property.lower()).CHECK
tier = 'thorough' if args.tier == 'thorough' else 'quick'
if args.replay:
    d = json.load(open(args.replay))
    bad = check.replay(d['data'])
    for b in bad:
        print(b)
    sys.exit(1 if bad else 0)
core.main(check, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
