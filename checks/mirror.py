"""A second process that makes the same calls of a history in a different order.

Parent: Mirror(mode).send(case); ...; .recv() -> {(op, set, form): [arrays]} or an error string.
Child (python -B mirror.py MODE MODULE): runs MODULE.mirror(case, mode) for every line of JSON.
"""
import base64
import importlib
import json
import os
import pickle
import subprocess
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))


class Mirror:
    def __init__(self, mode, module):
        self.p = subprocess.Popen([sys.executable, "-B", os.path.join(HERE, "mirror.py"), mode, module],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)

    def send(self, case):
        self.p.stdin.write(json.dumps(case) + "\n")
        self.p.stdin.flush()

    def recv(self):
        from pbt.core import HarnessError

        line = self.p.stdout.readline()
        if not line.startswith("@@"):
            raise HarnessError("the mirror process died")
        return pickle.loads(base64.b64decode(line[2:]))


def main():
    sys.path.insert(0, os.path.dirname(HERE))
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from pbt.boot import boot

    boot(sys.argv[1])
    mod = importlib.import_module(sys.argv[2])
    for line in sys.stdin:
        try:
            res = mod.mirror(json.loads(line), sys.argv[1])
        except Exception:
            res = traceback.format_exc()[-1500:]
        out.write("@@" + base64.b64encode(pickle.dumps(res)).decode() + "\n")
        out.flush()


if __name__ == "__main__":
    main()
