"""python -m pbt.stampede CLASS: listeners that are shut down while connections come in, in a process of their own.
Rounds are read from stdin: [[connections, work between connecting and shutting down], ...]"""
import json
import os
import socket
import sys

from anthunder.listener import AioListener, SockListener

from . import net, wire

CLASSES = {"aio": AioListener, "sock": SockListener}
WAIT = 10


def one(cls, k, spin):
    lsn, addr = net.start_listener(cls)
    conns = []
    try:
        # nobody else gets to run between connecting and shutting down
        sys.setswitchinterval(0.1)
        for _ in range(k):
            c = socket.socket()
            conns.append(c)
            c.setblocking(False)
            c.connect_ex(tuple(addr))
        sum(range(spin))
        lsn.shutdown()
        sys.setswitchinterval(0.005)
        for c in conns:
            c.settimeout(WAIT)
            try:
                c.sendall(wire.heartbeat(1))
                if not c.recv(100):
                    yield "closed"
                else:
                    yield "answered"
            except socket.timeout:
                yield "hang"
            except OSError:
                yield "refused"
        try:
            with socket.create_connection(addr, 5):
                yield "accepted"
        except OSError:
            pass
    finally:
        sys.setswitchinterval(0.005)
        for c in conns:
            c.close()


def main():
    cls = CLASSES[sys.argv[1]]
    for k, spin in json.load(sys.stdin):
        print(json.dumps([k, spin, list(one(cls, k, spin))]), flush=True)


if __name__ == "__main__":
    main()
    sys.stdout.flush()
    os._exit(0)
