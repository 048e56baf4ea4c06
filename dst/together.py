"""Processes that run at the same time on one simulated disk: each is a forked child that stops before every disk operation and
goes on when the schedule says so. Only one runs at any time, so one schedule is one execution."""
import os
import pickle
import resource
import struct
import traceback

from . import world


class Child:
    def __init__(self, disk, job, others):
        a, b = os.pipe()           # the child asks
        c, d = os.pipe()           # it may go on
        self.pid = os.fork()
        if self.pid == 0:
            code = 1
            try:
                os.close(a)
                os.close(d)
                for o in others:
                    os.close(o.ask)
                    os.close(o.go)
                resource.setrlimit(resource.RLIMIT_CPU, (240, 240))

                def gate(kind, path):
                    os.write(b, b'.')
                    if os.read(c, 1) != b'.':
                        os._exit(1)
                gate('start', '')
                disk.gate = gate
                try:
                    res = job()
                except (Exception, world.HarnessError) as e:
                    res = {'error': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-3000:])}
                data = pickle.dumps(res)
                data = b'!' + struct.pack('<I', len(data)) + data
                while data:
                    data = data[os.write(b, data):]
                code = 0
            finally:
                os._exit(code)
        os.close(b)
        os.close(c)
        self.ask, self.go = a, d
        self.done = False
        self.res = None
        self.steps = 0
        self.wait()

    def wait(self):
        """Until it stops before an operation, or ends"""
        x = os.read(self.ask, 1)
        if x == b'.':
            return
        if x == b'!':
            n = struct.unpack('<I', self.all(4))[0]
            self.res = pickle.loads(self.all(n))
        self.end()

    def all(self, n):
        out = b''
        while len(out) < n:
            x = os.read(self.ask, n - len(out))
            if not x:
                break
            out += x
        return out

    def end(self):
        if not self.done:
            self.done = True
            os.close(self.ask)
            os.close(self.go)
            self.status = os.waitpid(self.pid, 0)[1]

    def step(self):
        self.steps += 1
        os.write(self.go, b'.')
        self.wait()


def run(disk, jobs, sched):
    """jobs: functions of no arguments, each one process. sched: [[which, how many operations], ...]; when it is over, the ones
    still running end one after another. Returns (results, the switches that took place)"""
    kids = []
    trace = []
    try:
        for j in jobs:
            kids.append(Child(disk, j, [k for k in kids if not k.done]))
        for k, n in list(sched) + [[k, None] for k in range(len(kids))]:
            if k >= len(kids) or kids[k].done:
                continue
            c = kids[k]
            s0 = c.steps
            while not c.done and (n is None or c.steps - s0 < n):
                c.step()
            trace.append([k, c.steps - s0])
    finally:
        for c in kids:
            if not c.done:
                os.kill(c.pid, 9)
                c.end()
    return [c.res for c in kids], trace
