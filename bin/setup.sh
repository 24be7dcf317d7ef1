#!/bin/bash
# Builds the framework: compiles the BigInt accelerator and checks that it
# computes what the TLA+ definitions say, and that Fix.tla is accurate.
set -e
cd "$(dirname "$0")/.."
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python - <<'P'
import sys
sys.path.insert(0, "harness")
import tlc
text = tlc.cfg()
keep = lambda ls: [x for x in ls if x.startswith('"<<')]
a = tlc.run("BigIntTest", text, java=True)
b = tlc.run("BigIntTest", text, java=False)
assert a[0] == 0 and b[0] == 0, (a[0], b[0])
assert keep(a[1]) and keep(a[1]) == keep(b[1]), "BigInt override differs from its definition"
f = tlc.run("FixTest", text)
assert f[0] == 0, tlc.errors(f[1])
print("setup ok: %d BigInt results identical with and without the override" % len(keep(a[1])))
P
