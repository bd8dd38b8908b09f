"""Interrupts the code under test at the n-th line it executes (an exception arriving at an arbitrary point)."""
import os
import sys

ROOT = os.path.join(os.environ.get("SIM_REPO", "/repo"), "cameratransform") + os.sep


class Interrupt:
    """with Interrupt(n, KeyboardInterrupt) as i: call()  ->  i.fired tells whether line n was reached"""

    def __init__(self, n, exc):
        self.n, self.exc, self.count, self.fired = n, exc, 0, False
        self.where = None

    def _local(self, frame, event, arg):
        if event == "line":
            self.count += 1
            if self.count == self.n and not self.fired:
                self.fired = True
                self.where = "%s:%d" % (frame.f_code.co_name, frame.f_lineno)
                sys.settrace(None)
                raise self.exc("injected at line event %d" % self.n)
        return self._local

    def _global(self, frame, event, arg):
        if self.fired or not frame.f_code.co_filename.startswith(ROOT):
            return None
        return self._local

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self._global)
        return self

    def __exit__(self, *exc):
        sys.settrace(self.old)
        return False
