"""What a call returns when it is the first one of a process.

A server is forked before this process has called the code under test; it
answers every request from a child of its own, so that no call sees another.
"""
import os
import pickle
import struct
import sys
import traceback

_server = None


class Raised(Exception):
    """the call raised in the fresh process"""


def _read(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            return None
        out += part
    return out


def _recv(fd):
    head = _read(fd, 8)
    if head is None:
        return None
    body = _read(fd, struct.unpack('>Q', head)[0])
    return None if body is None else pickle.loads(body)


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack('>Q', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def _serve(rd, wr):
    while True:
        req = _recv(rd)
        if req is None:
            os._exit(0)
        pid = os.fork()
        if pid == 0:
            try:
                f, a = req
                _send(wr, (True, f(*a)))
            except BaseException:
                _send(wr, (False, traceback.format_exc()[-1500:]))
            os._exit(0)
        os.waitpid(pid, 0)


def start():
    """to be called before the first call of the code under test"""
    global _server
    if _server is not None and _server[0] == os.getpid():
        return
    rq, wq = os.pipe()
    ra, wa = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        os.close(wq)
        os.close(ra)
        try:
            _serve(rq, wa)
        finally:
            os._exit(0)
    os.close(rq)
    os.close(wa)
    _server = (os.getpid(), wq, ra)


def first(f, *a):
    """f(*a) evaluated as the first call of a process; f is a module-level function, results can be pickled"""
    start()
    _send(_server[1], (f, a))
    r = _recv(_server[2])
    if r is None:
        raise RuntimeError('the reference process died')
    if not r[0]:
        raise Raised(r[1])
    return r[1]
