"""Run a function in a forked process, with a deadline."""
import os
import pickle
import select
import signal
import threading
import time


def in_child(func, deadline):
    """
    Returns ('ok', value), ('raised', repr), ('died', status) or ('hang', None).
    """
    recv, send = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(recv)
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 2)
            threading.excepthook = lambda *_: None
            try:
                data = ('ok', func())
            except BaseException as exc:  # pylint: disable=broad-except
                data = ('raised', repr(exc))
            blob = pickle.dumps(data)
            while blob:
                blob = blob[os.write(send, blob):]
            code = 0
        finally:
            os._exit(code)  # pylint: disable=protected-access
    os.close(send)
    blob = b''
    end = time.time() + deadline
    try:
        while True:
            left = end - time.time()
            if left <= 0 or not select.select([recv], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                return ('hang', None)
            chunk = os.read(recv, 65536)
            if not chunk:
                break
            blob += chunk
    finally:
        os.close(recv)
        _, status = os.waitpid(pid, 0)
    if not blob:
        return ('died', status)
    return pickle.loads(blob)
