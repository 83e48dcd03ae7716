"""usage: replay.py FILE   -- run one recorded case, without Hypothesis.

Exit 0: the property held for the case; exit 1: it is broken."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True

import importlib  # noqa: E402
import harness  # noqa: E402

harness.hypothesis()
item = harness.load_replay(sys.argv[1])
for fn in sorted(os.listdir(os.path.join(HERE, 'checks'))):
    if fn.startswith(item['property'].lower() + '_'):
        mod = importlib.import_module(fn[:-3])
if 'history' in sys.modules:
    sys.modules['history'].start()
facet = {f.name: f for f in mod.FACETS}[item['facet']]
try:
    harness.run_case(facet, item['case'])
except harness.Violation as err:
    print(f"VIOLATION property={item['property']} replay={sys.argv[1]}")
    print(' ', err)
    sys.exit(1)
print('held')
