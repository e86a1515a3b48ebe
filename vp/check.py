import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(10000)

from vp import report            # noqa: E402
from vp.checks import panel_kernels, connections, fields, results, tables, memory, assembly, options, bay, loads, calls, registry, persist, guards, history, builders, plots   # noqa: E402

REGISTRY = {}
for m in (panel_kernels, connections, fields, results, tables, memory, assembly, options, bay, loads, calls, registry, persist, guards, history, builders, plots):
    REGISTRY.update(m.REGISTRY)

if __name__ == '__main__':
    args = sys.argv[1:]
    if not args or args == ['all']:
        args = sorted(REGISTRY)
    sys.exit(report.main(args, REGISTRY))
