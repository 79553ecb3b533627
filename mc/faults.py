"""Faults of the file system, independent of how the code under test writes its files.

torn(n, kill)  -> every write beyond byte n of a file fails (or kills the process)
crash(k)       -> the process dies before its k-th operation on a file

Both act on the process that calls them and are meant for a forked child.
"""

import os
import resource
import signal
import sys

WATCHED = ("open", "os.rename", "os.remove", "os.link", "os.symlink", "os.truncate", "os.chmod", "os.mkdir", "os.rmdir", "os.utime", "shutil.copyfile", "shutil.move", "shutil.copymode")


def torn(n, kill=False):
    """Files cannot grow beyond n bytes: the write fails, or ends the process."""
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if kill else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))


def crash(k, root):
    """The process dies before the k-th operation on something below root; k is None: only counts. Returns the counter."""
    seen = [0]
    root = os.path.realpath(root)

    def hook(event, args):
        if event not in WATCHED:
            return
        for a in args[:2]:
            if isinstance(a, bytes):
                a = os.fsdecode(a)
            if isinstance(a, str) and os.path.realpath(a).startswith(root + os.sep):
                if seen[0] == k:
                    os._exit(9)
                seen[0] += 1
                return

    sys.addaudithook(hook)
    return seen
