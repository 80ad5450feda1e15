"""Conflicting memory accesses of two threads: locks held at every access of two operations are compared."""
import os
import subprocess
from llsym import ity


def tsan_works(into):
    """whether programs with the thread sanitizer run here"""
    os.makedirs(into, exist_ok=True)
    src, exe = os.path.join(into, "probe.cpp"), os.path.join(into, "probe")
    open(src, "w").write("int main() { return 7; }")
    try:
        subprocess.run(["clang++", "-fsanitize=thread", src, "-o", exe], check=True, capture_output=True)
        return subprocess.run([exe], capture_output=True, timeout=60).returncode == 7
    except Exception:
        return False


class Recorder:
    """what one operation does to memory which exists before it starts"""

    def __init__(self, m):
        self.m, self.held, self.order, self.at = m, {}, set(), {}
        self.old = set(map(id, m.objs))
        self.guards = 0

    def start(self):
        m, find = self.m, type(self.m).find
        m.recorder = self

        def traced(addr, n, write):
            o, off = find(m, addr, n, write)
            if not m.atomic and not self.guards and not o.const and o.name != "errno" and id(o) in self.old:
                locks = frozenset(self.held.items())
                for b in range(addr, addr + n):
                    self.at.setdefault(b, set()).add((write, locks))
            return o, off
        m.find = traced

    def stop(self):
        del self.m.find
        self.m.recorder = None
        return self


def excluded(a, b):
    """some lock is held by both, by one of them exclusively"""
    b = dict(b)
    return any(l in b and (x or b[l]) for l, x in a)


def conflict(a, b):
    """a reason why two operations must not run at the same time, or None"""
    for adr, mine in a.at.items():
        for w1, l1 in mine:
            for w2, l2 in b.at.get(adr, ()):
                if (w1 or w2) and not excluded(l1, l2):
                    o, off = type(a.m).find(a.m, adr, 1, False)
                    return "unordered accesses to byte %d of %s" % (off, o.name or o.kind)
    for x, y in a.order:
        if (y, x) in b.order:
            return "locks are taken in opposite orders"
    return None


def _lock(exclusive):
    def f(m, a, name):
        r = getattr(m, "recorder", None)
        if r is None:
            return 0
        l = m.addr(a[0])
        if l in r.held and "trylock" not in name and m.load(ity(32), l + 16) != 1:
            m.bad("deadlock: a thread waits for a lock it holds")
        for h in r.held:
            if h != l:
                r.order.add((h, l))
        r.held[l] = exclusive or r.held.get(l, False)
        return 0
    return f


def _unlock(m, a, name):
    r = getattr(m, "recorder", None)
    if r is not None:
        r.held.pop(m.addr(a[0]), None)
    return 0


def _guard(m, a, name):
    r = getattr(m, "recorder", None)
    first = m.load(ity(8), a[0]) == 0
    if r is not None and first:
        r.guards += 1
    return int(first)


def _guard_rel(m, a, name):
    if name.endswith("release"):
        m.store(ity(8), 1, a[0])
    r = getattr(m, "recorder", None)
    if r is not None:
        r.guards -= 1


def install(unit):
    for n in ("pthread_mutex_lock", "pthread_mutex_trylock", "pthread_rwlock_wrlock", "pthread_rwlock_trywrlock"):
        unit.intercepts[n] = _lock(True)
    for n in ("pthread_rwlock_rdlock", "pthread_rwlock_tryrdlock"):
        unit.intercepts[n] = _lock(False)
    for n in ("pthread_mutex_unlock", "pthread_rwlock_unlock"):
        unit.intercepts[n] = _unlock
    unit.intercepts["__cxa_guard_acquire"] = _guard
    unit.intercepts["__cxa_guard_release"] = unit.intercepts["__cxa_guard_abort"] = _guard_rel
