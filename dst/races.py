"""Generated OpenMP code under a scheduler that decides every interleaving: shared by C15 and C16.

The Fortran of a run is compiled with -fsanitize=thread, which turns every access to shared memory into a call of the
simulated runtime (omp/ompsim.c). A schedule is a seed; a first execution records which addresses several members of the
team touch, later ones switch members mostly there."""
import numpy as np

from . import f2pyemu

SERIAL, RANDOM, CONFLICT = 0, 1, 2


def schedules(r, n):
    """[mode, threads, seed, p]"""
    out = []
    for _ in range(n):
        t = r.choice([1, 2, 2, 2, 3, 4, 5, 7, 8, 16, 33])
        mode = r.choice([SERIAL, RANDOM, RANDOM, CONFLICT, CONFLICT, CONFLICT])
        p = r.choice([300, 3000, 16000, 40000]) if mode == RANDOM else r.choice([-1, -2, 6000, 20000, 45000])
        out.append([mode, t, r.getrandbits(30), p])
    return out


def flat(g, sig, args):
    """Arguments with arrays of the order of one, so that nothing is lost beside something else"""
    ins = [a for a in sig if a[3] != 'out']
    out = []
    for (n, t, dims, intent), v in zip(ins, args):
        if dims is not None and np.dtype(t).kind == 'f':
            v = g.uniform(.5, 2.0, dims)
        out.append(v)
    return out


def differs(ref, got, rel):
    """None or what differs"""
    for (n, a), (m, b) in zip(ref, got):
        a, b = a.ravel(), b.ravel()
        if a.shape != b.shape:
            return '%s has %d values for %d' % (n, b.size, a.size)
        with np.errstate(all='ignore'):
            bad = ~(np.abs(a - b) <= rel * np.maximum(np.abs(a), floor(a)))
        bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
        if bad.any():
            i = int(np.argmax(bad))
            return '%s(%d) = %r, serially %r' % (n, i + 1, float(b[i]), float(a[i]))
    return None


def floor(a):
    f = np.abs(a[np.isfinite(a)])
    return 1e-9 * f.max() if f.size else 0.0


class Code:
    """One generated file, compiled for the scheduler"""

    def __init__(self, text):
        so, err = f2pyemu.compile_fortran(text, [], tsan=True)
        self.error = err
        self.lib = None
        if so is not None:
            self.fns, self.lib = f2pyemu.load(so, text)
            self.sigs = dict(f2pyemu.signatures(text))

    def close(self):
        if self.lib is not None:
            f2pyemu.unload(self.lib)
            self.lib = None


def explore(out, label, ref, d, scheds, rel):
    """Run d under the schedules, compare with ref. True if all agree"""
    nconf = {}
    for mode, threads, seed, p in scheds:
        if mode == CONFLICT:
            if threads not in nconf:
                # where members meet: seen in an execution in which they take turns
                d(RANDOM, threads, seed=seed, p=20000, record=True)
                nconf[threads] = f2pyemu.conflicts()
                out.probe('shared_addresses', nconf[threads][0])
                st = f2pyemu.stats()
                out.probe('preemptions', st[1])
            if p < 0:   # about -p switches at places where members meet
                p = min(60000, max(1, int(-p * 65536 * 2 / max(1, nconf[threads][1]))))
            o = f2pyemu.omp_handle()
            d(RANDOM, threads, seed=seed, p=20000, record=True)
        got = d(mode, threads, seed=seed, p=p)
        st = f2pyemu.stats()
        out.probe('schedules')
        out.probe('shared_accesses', st[0])
        out.probe('preemptions', st[1])
        out.probe('parallel_regions', st[2])
        if st[1]:
            out.fault('preemption', st[1])
        out.sig.add('%s %x' % (label.split(' ')[0], st[3]))
        what = differs(ref, got, rel)
        if what:
            tr = f2pyemu.trace()
            tr = reduce_trace(d, threads, tr, ref, rel)
            out.trace += ['member %d goes on after access %d' % (b, a) for a, b in tr[:60]]
            out.fail('schedule', '%s with %d threads: %s; switches (access, member): %s' % (label, threads, what, tr[:12]))
            return False
    return True


def reduce_trace(d, threads, tr, ref, rel):
    """A short list of switches with which it still differs"""
    if len(tr) > 4000 or not differs(ref, d.replay(threads, tr), rel):
        return tr
    size = max(1, len(tr) // 2)
    budget = 300
    while size >= 1 and budget > 0:
        i = 0
        while i < len(tr) and budget > 0:
            cand = tr[:i] + tr[i + size:]
            budget -= 1
            if differs(ref, d.replay(threads, cand), rel):
                tr = cand
            else:
                i += size
        if size == 1:
            break
        size //= 2
    return tr
