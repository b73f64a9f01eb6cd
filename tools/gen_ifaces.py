"""Derive the call interfaces of the reference functions (spec/ifaces.json)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from ww.session import Session, SPEC_ROOT

S = Session(SPEC_ROOT, ifaces=False)
rows = {
    f.qual: {"reads": i.reads, "mods": i.mods}
    for f, i in S.derive_ifaces().items()
    if i is not None
}
with open(os.path.join(SPEC_ROOT, "ifaces.json"), "w") as fh:
    json.dump(rows, fh, indent=0, sort_keys=True)
print(len(rows), S.notes)
