"""Writes MANIFEST.json from properties.jsonl and checks/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('bounded symbolic execution of the real Python functions (numpy, '
        'pandas and xarray over solver terms), every assertion decided by '
        'z3/cvc5 and interval branch-and-prune; counterexamples replayed on '
        'the unpatched code')
NOTE = {}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT,
                                                      'properties.jsonl'))]
    checks, na = [], []
    ready = set(open(os.path.join(ROOT, 'tools', 'ready')).read().split())
    for p in props:
        i = p['id']
        if i in ready:
            checks.append(dict(property=i, quick_cmd='./check %s quick' % i,
                               thorough_cmd='./check %s thorough' % i,
                               technique=TECH, level='model_checking',
                               level_note=NOTE.get(i) or 'holds for every '
                               'value within the bounds listed in the '
                               'evidence; real arithmetic stands in for '
                               'doubles, replays use doubles'))
        else:
            na.append(dict(property=i, reason=NA.get(
                i, 'no check has been built yet')))
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
