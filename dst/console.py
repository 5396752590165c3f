"""Simulated console: scripted standard input, recorded standard output, os.system only recorded."""
import io
import os
import sys

from .core import Violation


class Out(io.TextIOBase):
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, con):
        self.con = con

    def writable(self):
        return True

    def write(self, s):
        self.con.on_write(s)
        return len(s)

    def flush(self):
        pass


class In(io.TextIOBase):
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, con):
        self.con = con

    def readable(self):
        return True

    def readline(self, n=-1):
        con = self.con
        con.asked += 1
        if con.answers:
            return con.answers.pop(0) + "\n"
        return ""


class Console:
    """answers: lines typed; broken_after: number of writes to the console after which it is gone"""

    def __init__(self, answers, broken_after=None, watch=None):
        self.answers = list(answers)
        self.text = ""
        self.writes = 0
        self.broken_after = broken_after
        self.broke = False
        self.watch = watch        # called with each completed line
        self.asked = 0
        self.systems = []
        self._line = ""

    def on_write(self, s):
        self.writes += 1
        if self.broken_after is not None and self.writes > self.broken_after:
            self.broke = True
            raise BrokenPipeError(32, "Broken pipe (simulated)")
        self.text += s
        self._line += s
        while "\n" in self._line:
            line, self._line = self._line.split("\n", 1)
            if self.watch:
                self.watch(line)

    def lines(self):
        return self.text.split("\n")

    def _system(self, cmd):
        self.systems.append(cmd)
        return 0

    def __enter__(self):
        self.saved = sys.stdin, sys.stdout, sys.stderr, os.system
        sys.stdin, sys.stdout = In(self), Out(self)
        sys.stderr = io.StringIO()
        os.system = self._system
        return self

    def __exit__(self, *a):
        sys.stdin, sys.stdout, sys.stderr, os.system = self.saved
        return False
