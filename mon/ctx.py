"""What one monitored case reports.  A case function gets (rng, ctx) and talks only through ctx."""
import hashlib
import json


class Skip(Exception):
    """the case decides nothing (outside the oracle's margin, reference too large, ...)"""


class Ctx:
    def __init__(self, prop, family, idx, tier):
        self.prop, self.family, self.idx, self.tier = prop, family, idx, tier
        self.events = {}
        self.sigs = set()
        self.viol = []
        self.sample_data = None
        self.spec = None
        self.skipped = {}

    def event(self, kind, n=1):
        self.events[kind] = self.events.get(kind, 0) + n

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    def nontrivial(self, *sig):
        """this case reached a state the property says something about; sig makes it distinct"""
        h = hashlib.md5(json.dumps(sig, sort_keys=True, default=str).encode()).hexdigest()[:12]
        self.sigs.add(h)

    def violation(self, msg, key=None, **data):
        """key names the mechanism (used to match the committed list of known findings)"""
        if len(self.viol) < 8:
            self.viol.append({'msg': str(msg)[:2000], 'key': key, 'data': data})

    def sample(self, data):
        if self.sample_data is None:
            self.sample_data = data

    def report(self):
        return {'events': self.events, 'sigs': sorted(self.sigs), 'viol': self.viol,
                'sample': self.sample_data, 'skipped': self.skipped,
                'spec': self.spec if self.viol else None}
