"""Faults at the boundary between the code under test and SQLite."""
import os
import signal
import sqlite3
import sys

CHILD_S = 60
CALLS = ('execute', 'executemany', 'executescript', 'commit', 'rollback', 'close', 'cursor', 'fetchone', 'fetchall', 'fetchmany', '__exit__')


class Points:
    """Counts the calls that Python code makes to SQLite, and does something at the k-th of them."""

    def __init__(self, at=None, action=None, names=CALLS, every=False):
        self.at, self.action, self.names, self.every = at, action, names, every
        self.n = 0
        self.log = []

    def profile(self, frame, event, arg):
        if event != 'c_call' and event != 'c_return':
            return
        if event == 'c_return':
            return
        owner = getattr(arg, '__self__', None)
        if isinstance(owner, (sqlite3.Cursor, sqlite3.Connection)) and arg.__name__ in self.names:
            k = self.n
            self.n += 1
            self.log.append(arg.__name__)
            if k == self.at or self.every:
                self.action()

    def __enter__(self):
        sys.setprofile(self.profile)
        return self

    def __exit__(self, *exc):
        sys.setprofile(None)


def raise_error():
    sys.setprofile(None)
    raise sqlite3.OperationalError('disk I/O error (injected)')


def die():
    os._exit(77)


def limits():
    """In a child: a call that does not end is a failure."""
    for name, signum in ((signal.ITIMER_PROF, signal.SIGPROF), (signal.ITIMER_REAL, signal.SIGALRM)):
        signal.signal(signum, signal.SIG_DFL)
        signal.setitimer(name, CHILD_S)


def in_child(fun):
    """Runs fun() in a forked process; returns its exit status (fun may end the process)."""
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 98
        try:
            sys.setprofile(None)
            limits()
            fun()
            code = 0
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status)
