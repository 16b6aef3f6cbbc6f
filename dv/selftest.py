"""Setup: the tools the checks need are present, and the prover rejects a false obligation."""
import os, subprocess, sys
from . import extract as X, registry, props


def main():
    for t in ('clang++', 'opt', 'llvm-link'):
        p = os.path.join('/usr/lib/llvm-18/bin', t)
        if not os.path.exists(p):
            print('missing', p)
    subprocess.run([X.PY, '-c', 'import numpy'], check=True)
    import z3
    s = z3.Solver()
    i = z3.Int('i')
    s.add(i > 0, z3.Not(i > 1))
    assert s.check() == z3.sat
    registry.load()
    n = sum(registry.lookup(m, a) is not None for P in props.PROPS.values() if not callable(P['targets']) for m, a in P['targets'])
    print(f"ok: {len(props.PROPS)} properties, {n} contracts")


if __name__ == '__main__':
    sys.exit(main())
