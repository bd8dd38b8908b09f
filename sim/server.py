"""A process with an environment of its own (hash seed, memory layout) that answers scenario requests of runs.

Every request is executed in a fork of it, so that no request sees another one.  It ends when its parent does.
"""
import importlib
import os
import pickle
import select
import socket
import struct
import sys
import traceback


def recv(conn):
    head = b""
    while len(head) < 8:
        d = conn.recv(8 - len(head))
        if not d:
            return None
        head += d
    n = struct.unpack("<q", head)[0]
    data = b""
    while len(data) < n:
        d = conn.recv(min(1 << 16, n - len(data)))
        if not d:
            return None
        data += d
    return pickle.loads(data)


def send(conn, obj):
    data = pickle.dumps(obj)
    conn.sendall(struct.pack("<q", len(data)) + data)


def call(path, arg):
    s = socket.socket(socket.AF_UNIX)
    s.connect(path)
    try:
        send(s, arg)
        return recv(s)
    finally:
        s.close()


def main(path, module, func):
    mod = importlib.import_module(module)
    mod.server_setup()
    f = getattr(mod, func)
    srv = socket.socket(socket.AF_UNIX)
    srv.bind(path + ".tmp")
    srv.listen(8)
    os.rename(path + ".tmp", path)
    while True:
        ready, _, _ = select.select([srv, 0], [], [])
        if 0 in ready and not os.read(0, 1):
            return
        if srv in ready:
            conn, _ = srv.accept()
            pid = os.fork()
            if pid == 0:
                try:
                    srv.close()
                    devnull = os.open(os.devnull, os.O_RDWR)
                    if not os.environ.get("SIM_DEBUG"):
                        os.dup2(devnull, 1)
                        os.dup2(devnull, 2)
                    arg = recv(conn)
                    try:
                        out = ("ok", f(arg))
                    except BaseException:
                        out = ("err", traceback.format_exc())
                    send(conn, out)
                finally:
                    os._exit(0)
            conn.close()
            os.waitpid(pid, 0)


if __name__ == "__main__":
    main(*sys.argv[1:4])
