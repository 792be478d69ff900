"""Runs under the interpreter of the repository: reads roots from stdin, one
per line; for each, runs the tests of that copy in a forked child and prints
the exit status."""
import os
import signal
import sys
import numpy
import numpy.ma
import numpy.testing
import six
import pytest
import unittest
import _pytest.junitxml
import _pytest.assertion.rewrite
try:
    from unittest import mock
except ImportError:
    pass
sys.stdout.flush()
for line in sys.stdin:
    root, args = line.split()[0], line.split()[1:]
    pid = os.fork()
    if pid == 0:
        signal.alarm(120)
        os.chdir(root)
        sys.path.insert(0, root)
        os.setsid()
        null = os.open(os.devnull, os.O_WRONLY)
        os.dup2(null, 1)
        os.dup2(null, 2)
        rc = 99
        try:
            rc = pytest.main(['-q', '-x', '-p', 'no:cacheprovider',
                              '--timeout=20'] + args + ['biggus'])
        finally:
            os._exit(int(rc))
    _, status = os.waitpid(pid, 0)
    print(os.WEXITSTATUS(status) if os.WIFEXITED(status) else 'killed')
    sys.stdout.flush()
