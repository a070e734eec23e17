#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the check modules present."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
NA = {
    'C29': 'lib/infer is a checker with deliberately loose rules (unbound names are skipped, () fits every type, bindings of application variables are '
           'forgotten so that arguments may be used at several types, let is not generalised): it has no principal types to compare with, and what it accepts is '
           'not specified anywhere, so generated inputs have no oracle.',
}
checks, na = [], []
for line in open(ROOT + '/properties.jsonl'):
    p = json.loads(line)
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (ROOT, i.lower())):
        c = importlib.import_module('checks.' + i.lower()).C
        checks.append(dict(
            property=i,
            quick_cmd='python3 run.py %s --tier quick' % i,
            thorough_cmd='python3 run.py %s --tier thorough' % i,
            technique=c.technique, level='exploration', level_note=c.note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for it yet.')))
m = dict(version=1,
         setup_cmd='python3 -c "import pbt.core, pbt.lang, pbt.gen, pbt.build"',
         hooks=dict(guard='CORA_VERIF_HOOKS',
                    enable='The checks that need it build their own copy of /repo with -DCORA_VERIF_HOOKS (pbt/build.py, kind="stress").',
                    source_commits=os.popen("git -C /repo log --format=%h --grep='^verif:'").read().split()),
         checks=checks, not_applicable=na,
         notes='Each check copies the sources of /repo into a scratch directory under /tmp, builds them there and removes them. Exit 2 means a machinery error, never a verdict.')
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
