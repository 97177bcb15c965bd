"""What the Python recorders share: units run in child processes, so that a crash or a hang of the code under
test becomes a record of the trace instead of the end of the check."""
import json
import mmap
import os
import signal
import struct
import sys
import traceback


def parse_args():
    a, v = {}, sys.argv[1:]
    for i in range(0, len(v) - 1, 2):
        a[v[i].lstrip("-")] = v[i + 1]
    return a


class Args:
    def __init__(self):
        self.m = parse_args()

    def i(self, k, d):
        return int(self.m.get(k, d))

    def s(self, k, d):
        return self.m.get(k, d)


BIG = 2147483647


def clip(v):
    return v if -BIG < v < BIG else BIG


def wide(v):
    return [clip(v >> 24), v & 0xFFFFFF]


class Stat:
    """Counters shared with the children."""
    def __init__(self, *names):
        self.names = names
        self.mem = mmap.mmap(-1, 8 * (len(names) + 1))

    def add(self, name, k=1):
        i = self.names.index(name)
        v, = struct.unpack_from("q", self.mem, 8 * i)
        struct.pack_into("q", self.mem, 8 * i, v + k)

    def at(self, unit=None):
        i = len(self.names)
        if unit is not None:
            struct.pack_into("q", self.mem, 8 * i, unit)
        return struct.unpack_from("q", self.mem, 8 * i)[0]

    def dump(self):
        return {n: struct.unpack_from("q", self.mem, 8 * i)[0] for i, n in enumerate(self.names)}


def run(A, count_key, default, unit, stat, limit=20):
    """unit(k) -> list of records to emit (or None). Never returns a unit's crash: it becomes a record."""
    out = open(A.s("out", "/dev/stdout"), "w")
    only = A.i("only", -1)
    begin, end = (only, only + 1) if only >= 0 else (0, A.i(count_key, default))
    k, crashes = begin, 0
    while k < end and crashes < 20:
        out.flush()
        stat.at(k)
        pid = os.fork()
        if pid == 0:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            code = 0
            try:
                for j in range(k, end):
                    stat.at(j)
                    signal.alarm(limit)
                    try:
                        recs = unit(j)
                    except (MemoryError, OSError, ImportError):
                        raise
                    except Exception as e:  # an answer that is not even of the right kind
                        traceback.print_exc()
                        recs = [{"kind": "crash", "id": j, "why": "%s: %s" % (type(e).__name__, str(e)[:200])}]
                        crashes += 1
                    signal.alarm(0)
                    for r in recs or ():
                        out.write(json.dumps(r, separators=(",", ":")) + "\n")
                    out.flush()
                    if crashes >= 20:
                        break
            except BaseException:
                traceback.print_exc()
                code = 3
            os._exit(code)
        _, st = os.waitpid(pid, 0)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            break
        if os.WIFEXITED(st):
            sys.exit(3)
        sig = os.WTERMSIG(st)
        crashes += 1
        k = stat.at()
        out.write(json.dumps({"kind": "crash", "id": k, "why": "hang" if sig == signal.SIGALRM else "signal %d" % sig},
                             separators=(",", ":")) + "\n")
        k += 1
    out.close()
    print("STAT " + json.dumps(stat.dump()), file=sys.stderr)
