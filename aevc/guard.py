"""Time limits, so that code that does not terminate gives an answer."""
import contextlib
import signal
import threading
import time


class Hang(Exception):
    """The code under test did not finish within a (very generous) limit."""


_stack = []
_hangs = []


@contextlib.contextmanager
def limit(seconds, what):
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    if _hangs:
        seconds = min(seconds, 30)
    end = time.time() + seconds
    if _stack and _stack[-1][0] < end:
        # an enclosing limit is nearer
        yield
        return

    def handler(*_):
        _hangs.append(what)
        raise Hang(f"{what} did not finish within {seconds} s")

    old = signal.signal(signal.SIGALRM, handler)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    _stack.append((end,))
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        _stack.pop()
        signal.signal(signal.SIGALRM, old)
        if _stack:
            signal.setitimer(signal.ITIMER_REAL, max(0.1, _stack[-1][0] - time.time()))
