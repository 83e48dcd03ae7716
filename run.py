"""usage: run.py CHECK [FACET ...] [--thorough] [--verbose]

CHECK is the name of a module in /verif/checks (or its property id)."""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True

import harness  # noqa: E402

name = sys.argv[1].lower()
for fn in sorted(os.listdir(os.path.join(HERE, 'checks'))):
    if fn.endswith('.py') and (fn[:-3] == name
                               or fn.startswith(name + '_')):
        code = harness.main(fn[:-3])
        sys.stdout.flush()
        sys.exit(code)
print('no such check:', name)
sys.exit(2)
