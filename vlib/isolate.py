"""Run a function in a process group of its own and bring back what it returns."""
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback


class Hang(Exception):
    pass


class Raised(Exception):
    pass


def run(fn, timeout=100):
    fd, out = tempfile.mkstemp(prefix="verif-iso-")
    os.close(fd)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.setsid()
            err = os.open(out + ".err", os.O_CREAT | os.O_WRONLY)
            os.dup2(err, 2)
            os.dup2(err, 1)
            try:
                result = (True, fn())
            except Exception as exc:
                result = (False, exc)
                traceback.print_exc()
            try:
                data = pickle.dumps(result)
            except Exception:
                data = pickle.dumps((False, Raised(repr(result[1])[:500])))
            with open(out, "wb") as fp:
                fp.write(data)
        except BaseException:
            traceback.print_exc()
        finally:
            import multiprocessing.util
            multiprocessing.util._exit_function()
            os._exit(0)
    end = time.time() + timeout
    try:
        while not os.waitpid(pid, os.WNOHANG)[0]:
            if time.time() > end:
                raise Hang(open(out + ".err").read()[-1500:])
            time.sleep(0.01)
        data = open(out, "rb").read()
        if not data:
            raise RuntimeError("the process died: " + open(out + ".err").read()[-1500:])
        ok, value = pickle.loads(data)
        if not ok:
            raise value
        return value
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
        for f in (out, out + ".err"):
            if os.path.exists(f):
                os.unlink(f)
