"""Drives the real command line tools: in this process or as a child process."""
import contextlib
import io
import os
import subprocess
import sys

from .core import REPO


class Result:
    def __init__(self, code, out, err, exc=None):
        self.code, self.out, self.err, self.exc = code, out, err, exc

    def __repr__(self):
        return "exit %r stdout %r stderr %r %r" % (self.code, self.out[-200:], self.err[-300:], self.exc)


def run(*args):
    """`python -m dustmaker ARGS` without the interpreter start; an uncaught
    exception is what it is for the user: a non-zero exit."""
    from dustmaker.cmd.main import main
    out, err = (io.TextIOWrapper(io.BytesIO(), "utf8", newline="", write_through=True) for _ in range(2))
    argv = sys.argv
    sys.argv = ["dustmaker"] + [str(a) for a in args]
    exc = None
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                code = main()
            except SystemExit as e:
                code = e.code
    except Exception as e:  # noqa: what the tool raised, kept for the witness
        code, exc = 1, e
    finally:
        sys.argv = argv
    if code is None or code is False:
        code = 0
    elif not isinstance(code, int):
        code = 1
    return Result(code, *(f.detach().getvalue().decode("utf8") for f in (out, err)), exc)


def spawn(*args, module="dustmaker", cwd=None):
    """The same through a real interpreter process."""
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE="1")
    p = subprocess.run([sys.executable, "-B", "-m", module] + [str(a) for a in args], cwd=cwd, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=120)
    return Result(p.returncode, p.stdout.decode("utf8"), p.stderr.decode("utf8"))
