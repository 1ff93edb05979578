"""Obligations, findings, evidence."""
import json
import os
import time


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obligations = {}      # rule -> count
        self.findings = []         # dicts
        self.undecided = []
        self.units = set()
        self.minima = {}
        self.rules = {}
        self.samples = {}
        self.notes = []
        self.t0 = time.time()

    def rule(self, rid, text, minimum=1):
        self.rules[rid] = text
        self.minima[rid] = minimum
        self.obligations.setdefault(rid, 0)

    def ob(self, rid, construct, ok, loc='', msg=''):
        """one decided instance of rule `rid` at `construct`"""
        assert rid in self.rules, rid
        if ok is None:
            return self.undecide(rid, construct, loc, msg)
        self.obligations[rid] += 1
        self.units.add(construct)
        s = self.samples.setdefault(rid, [])
        if len(s) < 400:
            s.append(f'{construct} @ {loc}')
        if not ok and not any(f['rule'] == rid and f['construct'] == construct and f['message'] == msg and f['loc'] == loc for f in self.findings):
            self.findings.append({'rule': rid, 'construct': construct, 'loc': loc, 'message': msg})

    def undecide(self, rid, construct, loc='', why=''):
        u = {'rule': rid, 'construct': construct, 'loc': loc, 'why': why}
        if u not in self.undecided:
            self.undecided.append(u)

    def below_minimum(self):
        # an instance that is matched but cannot be decided still shows that its anchor exists
        seen = dict(self.obligations)
        for u in self.undecided:
            seen[u['rule']] = seen.get(u['rule'], 0) + 1
        return [(r, seen[r], m) for r, m in self.minima.items() if seen[r] < m]
