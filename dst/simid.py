"""Identities of objects under the simulator's control.

`id()` called by the package answers numbers that depend only on the history of the run: an object
keeps its number while anybody else holds it, and the number of one that is gone is given to the next
new object at once - what real allocators do now and then, on schedules nobody controls.
"""
import sys

BASE = 0x7F1200000000


class Ids:
    def __init__(self):
        self.held = {}          # real identity -> (object, number)
        self.free = []
        self.next = 0
        self.skip = 0
        self.least = 0
        self.least = self.count(object())

    def count(self, o):
        """References to an object nobody but the register holds."""
        held = {1: (o, 0)}
        del o
        for o, _ in held.values():
            return sys.getrefcount(o)

    def sweep(self):
        gone = []
        for real, (o, number) in self.held.items():
            if sys.getrefcount(o) <= self.least:
                gone.append((real, number))
        del o
        for real, number in gone:
            del self.held[real]
            self.free.append(number)

    def __call__(self, o, /):
        got = self.held.get(id(o))
        if got is not None:
            return got[1]
        self.skip -= 1
        if self.held and self.skip <= 0:
            self.sweep()
            self.skip = len(self.held) // 200
        if self.free:
            number = self.free.pop()
        else:
            number = BASE + 64 * self.next
            self.next += 1
        self.held[id(o)] = (o, number)
        return number


def install(package):
    """Give all modules of the package the simulated `id`."""
    ids = Ids()
    for name, m in list(sys.modules.items()):
        if (name == package or name.startswith(package + '.')) and 'id' not in vars(m):
            m.id = ids
