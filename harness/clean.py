"""A process in which nothing has happened yet: it forks a child per job, so
that each job runs as if it were the first thing done after importing the
library.  `start` has to be called before the library is used."""
import os
import pickle
import signal
import struct
import sys


def _read(f):
    h = f.read(4)
    if len(h) < 4:
        return None
    return pickle.loads(f.read(struct.unpack("I", h)[0]))


def _write(f, x):
    b = pickle.dumps(x)
    f.write(struct.pack("I", len(b)) + b)
    f.flush()


class Clean:
    def __init__(self):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(b)
            os.close(c)
            self.serve(os.fdopen(a, "rb"), os.fdopen(d, "wb"))
            os._exit(0)
        os.close(a)
        os.close(d)
        self.w, self.r = os.fdopen(b, "wb"), os.fdopen(c, "rb")

    def serve(self, r, w):
        while True:
            job = _read(r)
            if job is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    signal.alarm(30)
                    fn, args = job
                    sys.setrecursionlimit(10000)
                    res = (True, fn(*args))
                    pickle.dumps(res)
                except Exception as ex:
                    res = (False, ex)
                try:
                    _write(w, res)
                except Exception:
                    _write(w, (False, RuntimeError(str(res[1]))))
                os._exit(0)
            if os.waitpid(pid, 0)[1]:
                _write(w, (False, RuntimeError("the job ended without an answer")))

    def run(self, fn, *args):
        _write(self.w, (fn, args))
        ok, v = _read(self.r)
        if not ok:
            raise v
        return v

    def close(self):
        self.w.close()
        os.waitpid(self.pid, 0)
