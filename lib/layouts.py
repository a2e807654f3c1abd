import json, os
from fw import VERIF
L = json.load(open(VERIF + '/harness/layouts.json'))
STRUCTS = {s['name']: s for s in L['structs']}
INDEXES = {s['name']: s for s in L['indexes']}
VARIADICS = {s['name']: s for s in L['variadics']}
ARCHIVES = {s['name']: s for s in L['archives']}
# kind, name, layout, optional; some have also a schema of their own
for _a in ARCHIVES.values():
    _a['res'] = [r[:4] for r in _a['res']]
ENUMS = L['enums']


def under(t):
    return ENUMS[t]['repr'] if t in ENUMS else t


def to_field(b, o, w, v):
    x = int.from_bytes(bytes(b), 'little')
    m = ((1 << w) - 1) << o
    x = (x & ~m) | ((v << o) & m)
    return list(x.to_bytes(len(b), 'little'))
