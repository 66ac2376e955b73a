"""Run a command line program of the code under test: its arguments, what it prints and its exit code"""
import contextlib
import io
import logging
import os
import sys

__sx_internal__ = True


def run_main(h, main, args, cwd=None):
    """(exit code, text printed). The exit code is 0 if main returns"""
    from . import models
    out = models.SymStringIO(newline='') if h.symbolic else io.StringIO(newline='')
    argv, stdout, stdin, here = sys.argv, sys.stdout, sys.stdin, os.getcwd()
    handlers = {n: list(logging.getLogger(n).handlers) for n in ('user', 'cli-errors', 'debug')}
    sys.argv = ['program'] + list(args)
    sys.stdout = out
    sys.stdin = io.StringIO()  # exit() closes it
    err = io.StringIO()
    code = 0
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stderr(err):
            main()
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    finally:
        sys.argv, sys.stdout, sys.stdin = argv, stdout, stdin
        os.chdir(here)
        for n, hs in handlers.items():
            logging.getLogger(n).handlers[:] = hs
    return code, out.getvalue()
