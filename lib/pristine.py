"""
Computes something in a process that has not parsed nor run anything before: a server,
forked before any case runs, forks a process for each request.
"""

import json
import os
import struct


class Pristine:
    def __init__(self, fn):
        self.fn = fn
        down, up = os.pipe(), os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(down[1])
            os.close(up[0])
            try:
                self._serve(down[0], up[1])
            finally:
                os._exit(0)
        os.close(down[0])
        os.close(up[1])
        self.down, self.up = down[1], up[0]

    def _serve(self, down, up):
        while True:
            request = _read(down)
            if request is None:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    answer = [True, self.fn(*request)]
                except BaseException as ex:
                    answer = [False, repr(ex)]
                _write(up, answer)
                os._exit(0)
            _, status = os.waitpid(pid, 0)
            if status != 0:
                _write(up, [False, f"status {status}"])

    def __call__(self, *args):
        _write(self.down, args)
        answer = _read(self.up)
        if answer is None or not answer[0]:
            raise RuntimeError(f"pristine process: {answer}")
        return answer[1]


def _exactly(fd, n):
    parts = []
    while n:
        part = os.read(fd, min(n, 1 << 16))
        if not part:
            return None
        parts.append(part)
        n -= len(part)
    return b"".join(parts)


def _read(fd):
    head = _exactly(fd, 4)
    if head is None:
        return None
    return json.loads(_exactly(fd, struct.unpack(">I", head)[0]))


def _write(fd, data):
    data = json.dumps(data).encode()
    data = struct.pack(">I", len(data)) + data
    while data:
        data = data[os.write(fd, data) :]
