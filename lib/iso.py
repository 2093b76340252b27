"""Run a function in a forked child, so that nothing it does to process state survives."""
import os
import pickle
import select
import signal
import time
import traceback


class ChildError(Exception):
    pass


def run(fn, limit=60.0):
    """-> fn()'s picklable result; ("raised", type name, text) tuples are up to fn."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException:
                out = ("error", traceback.format_exc())
            data = pickle.dumps(out, protocol=4)
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.monotonic() + limit
    killed = False
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                killed = True
                os.kill(pid, signal.SIGKILL)
                break
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
        _, status = os.waitpid(pid, 0)
    if killed:
        return ("timeout", limit)
    if status != 0 or not chunks:
        return ("crash", status)
    kind, val = pickle.loads(b"".join(chunks))
    if kind == "error":
        raise ChildError(val)
    return ("ok", val)
