# -*- coding: utf-8 -*-
"""A simulated disk log and a simulated network, both driven by a plan."""
import json
import zlib

from core import SimFault


class DiskFull(IOError):
    pass


class Log(object):
    """An append-only log file.  What was written but not synced may be lost,
    kept in part, or torn by a crash; what was synced survives."""

    def __init__(self, sim, size=None):
        self.sim = sim
        self.size = size
        self.durable = []       # byte strings of whole records
        self.cache = []

    def append(self, obj):
        self.sim.cb('write')
        rec = json.dumps(obj)
        rec = '%08x %s\n' % (zlib.crc32(rec) & 0xffffffff, rec)
        used = sum([len(r) for r in self.durable + self.cache])
        if self.size is not None and used + len(rec) > self.size:
            self.sim.probe('disk-full')
            raise DiskFull('no space')
        self.cache.append(rec)

    def sync(self):
        self.sim.cb('sync')
        self.durable += self.cache
        self.cache = []

    def crash(self, choice):
        """The machine stops.  choice: a list of 'lost', 'kept', 'torn' used
        for the unsynced records in turn."""
        for i, rec in enumerate(self.cache):
            c = choice[i % len(choice)] if choice else 'lost'
            self.sim.probe('unsynced-record-%s' % c)
            if c == 'kept':
                self.durable.append(rec)
            elif c == 'torn':
                self.durable.append(rec[:max(1, len(rec) // 2)] + '\n')
        self.cache = []

    def read(self):
        """The records that are whole."""
        out = []
        for rec in self.durable:
            if rec[8:9] != ' ':
                continue
            body = rec[9:-1]
            try:
                crc = int(rec[:8], 16)
            except ValueError:
                continue
            if zlib.crc32(body) & 0xffffffff != crc:
                self.sim.probe('torn-record-dropped')
                continue
            out.append(json.loads(body))
        return out


def deliver(msgs, net, sim):
    """What arrives of *msgs*: net = {'drop': [i..], 'dup': [i..],
    'order': seed or None, 'late': n}."""
    import core
    out = []
    for i, m in enumerate(msgs):
        if i in net.get('drop', ()):
            sim.probe('message-lost')
            continue
        out.append(m)
        if i in net.get('dup', ()):
            sim.probe('message-duplicated')
            out.append(m)
    if net.get('order') is not None:
        core.mkrng('net', net['order']).shuffle(out)
        sim.probe('messages-reordered')
    # through bytes, as a real transport would
    return json.loads(json.dumps(out))
