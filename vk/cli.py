"""Running the command line tools in-process."""
import os, sys, io, shutil, tempfile, contextlib

from vk import core


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='vk-')
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


class TextOut(io.TextIOWrapper):
    pass


class StdIn(object):
    def __init__(self, data):
        self.buffer = data if hasattr(data, 'read') else io.BytesIO(data)


def run(args, stdin=b''):
    """-> (exit status, stdout bytes, stderr text)"""
    from warcio.cli import main
    old_in = sys.stdin
    sys.stdin = StdIn(stdin)
    rc = 0
    try:
        with core.Quiet() as q:
            try:
                main(args)
            except SystemExit as e:
                rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
            out, err = q.stdout(), q.stderr()
    finally:
        sys.stdin = old_in
    return rc, out, err


def write(path, data):
    with open(path, 'wb') as f:
        f.write(data)
    return path


def read(path):
    with open(path, 'rb') as f:
        return f.read()
