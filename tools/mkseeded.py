#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    'Q01': 'contexts that only resolvers install',
    'Q16': 'operation names with white space around them',
    'R08': 'white space around and inside of bodies',
    'R02': 'preemption at hot sites',
    'R11': 'refused, malformed and oversized requests next to traced ones',
    'R18': 'limits changed between copies',
    'S06': 'runs that repeat one request many times',
    'S31': 'types whose names differ in case only',
    'T01': 'copies made at once by several threads',
    'T03': 'values of every kind, nil too',
    'T04': 'crowded lists',
    'T08': 'contexts cancelled with a cause',
    'T09': 'other HTTP methods and bodies next to URLs',
    'U22': 'sweeps over lengths around 255, at every depth',
    'V04': 'errors obtained from another schema, answered by resolvers',
    'V22': 'hosts that give the same memory again with other contents',
    'U28': 'results behind pointers to pointers',
    'W23': 'typed nil, zero-valued, uncomparable and well-known errors of resolvers',
    'W25': 'uploaded files without a name',
    'X03': 'the scenario of a hung process is drawn correctly; deadlock of the only thread is recognised',
    'Y01': 'escaped names and white space in variables',
}
rows = []
for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(d))
    name = os.path.basename(os.path.dirname(d))
    first = MISSED.get(name.split('-')[0])
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'].replace('|', '/'), 'missed at first; added: ' + first if first else 'caught'))
p = V + '/DESIGN.md'
s = open(p).read()
mark = '| planted bug | by check |'
s = s[:s.index(mark)]
s += mark + ' needs | outcome |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
open(p, 'w').write(s)
