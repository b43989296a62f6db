"""Runs a share of a property's sessions on the library in /repo."""
from __future__ import annotations

import json
import os
import resource
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop, seed, first, stop, stride, out, seconds = sys.argv[1:8]
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    import bind
    import sessions
    deadline = time.monotonic() + float(seconds)
    timeouts = 0
    done = 0
    last = time.monotonic()
    with open(out, 'w') as f:
        for index in range(int(first), int(stop), int(stride)):
            try:
                run = sessions.make(prop, int(seed), index)
            except bind.Stop as s:
                run = s.args[0]
            except Exception:
                run = sessions.current()
                run.add(a='is', w='True', r=bind.X('Unexpected'),
                        note=traceback.format_exc(limit=-4))
            f.write(json.dumps({'id': index, 'e': run.emb.describe(),
                                's': run.steps}, separators=(',', ':')))
            f.write('\n')
            done += 1
            timeouts += run.timeouts
            if timeouts >= 3 or time.monotonic() > deadline:
                break
    print(json.dumps({'done': done, 'timeouts': timeouts}))


main()
