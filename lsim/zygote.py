"""Server process with another string-hash seed; runs programs of C13 in forked children.

usage: python -m lsim.zygote SOCKET   (ends when its standard input is closed)
"""
import gc
import os
import pickle
import select
import signal
import socket
import struct
import sys
import traceback

from . import core, simio

_write, _read = os.write, os.read


def recv(sock):
    buf = b""
    while len(buf) < 4:
        b = sock.recv(4 - len(buf))
        if not b:
            return None
        buf += b
    n, out = struct.unpack("I", buf)[0], b""
    while len(out) < n:
        b = sock.recv(min(1 << 16, n - len(out)))
        if not b:
            return None
        out += b
    return pickle.loads(out)


def send(sock, x):
    d = pickle.dumps(x)
    sock.sendall(struct.pack("I", len(d)) + d)


def serve(sock):
    from .props import c13
    core.new_sim()
    program, env = recv(sock)
    try:
        r = ("ok", c13.play(program, env))
    except core.Violation as e:
        r = ("violation", e.kind, e.msg)
    except core.Skip as e:
        r = ("skip", str(e))
    except BaseException:  # noqa
        r = ("error", traceback.format_exc())
    finally:
        sys.settrace(None)
        simio.DISK.unmount()
    send(sock, r)


def main():
    path = sys.argv[1]
    core.boot()
    simio.install()
    gc.freeze()
    gc.disable()
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    _write(1, b"ready\n")
    while True:
        r = select.select([s, 0], [], [])[0]
        if 0 in r:
            os._exit(0)
        c, _ = s.accept()
        if os.fork() == 0:
            try:
                signal.signal(signal.SIGCHLD, signal.SIG_DFL)
                s.close()
                n = os.open("/dev/null", os.O_RDWR)
                for i in (0, 1, 2):
                    os.dup2(n, i)
                serve(c)
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    main()
