"""Builds every variant of the harness (and warms the build cache)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import prepare
prepare.prepare()
for v in prepare.VARIANTS:
    out, err = prepare.build(v)
    if not out:
        print(err)
        sys.exit(1)
    print("built", out)
