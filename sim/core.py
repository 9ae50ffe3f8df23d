"""Shared vocabulary of the property modules."""
import hashlib
import json
import random


class Violation(Exception):
    def __init__(self, cls, msg):
        Exception.__init__(self, msg)
        self.cls = cls
        self.msg = msg


class Skip(Exception):
    """the generated configuration is rejected by the library without any fault: nothing to check"""


class Known(Exception):
    """the run ended in a situation that is listed as a known finding"""

    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key = key
        self.msg = msg


class Ctx(object):
    """record of one simulated run"""

    def __init__(self):
        self.events = []
        self.faults = {}
        self.probes = {}
        self.sigs = set()
        self.ops = 0
        self.checks = 0
        self.simtime = 0

    def op(self, *e):
        """one step of the simulated history"""
        self.ops += 1
        self.events.append(e)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def sig(self, *s):
        self.sigs.add(hashlib.md5(repr(s).encode()).hexdigest()[:12])

    def hash(self):
        return hashlib.md5(repr(self.events).encode()).hexdigest()


ctx = Ctx()


def new_ctx():
    global ctx
    ctx = Ctx()
    return ctx


def rng_for(*key):
    return random.Random(int(hashlib.sha256(json.dumps(key).encode()).hexdigest()[:16], 16))


def check(d, cls, what):
    """raises a violation if a difference was found"""
    ctx.checks += 1
    if d:
        raise Violation(cls, '%s: %s' % (what, d))


# ----------------------------------------------------------------------------------------------------------------
# generic shrinking of JSON plans

def shrink_list(l, minlen=0):
    n = len(l)
    k = n // 2
    while k >= 1:
        for i in range(0, n, k):
            c = l[:i] + l[i + k:]
            if len(c) >= minlen and len(c) < n:
                yield c
        k //= 2


def with_key(d, k, v):
    c = dict(d)
    c[k] = v
    return c


def without(d, k):
    c = dict(d)
    c.pop(k, None)
    return c


def shrink_om(om):
    if om['prior'] != ['none']:
        yield with_key(om, 'prior', ['none'])
    for i, g in enumerate(om['grids']):
        if g[0] in ('oint', 'cint') and g[3] > 3:
            gs = list(om['grids'])
            gs[i] = g[:3] + [3]
            yield with_key(om, 'grids', gs)


def shrink_tm(t, top=True):
    if top and t['t'] != 'Static':
        pass
    for s in t.get('sub', []):
        if s['t'] not in ('BP',) and t['t'] == 'Combined':
            yield s
    if t['t'] == 'Combined' and len(t['sub']) > 2:
        for i in range(len(t['sub'])):
            yield with_key(t, 'sub', t['sub'][:i] + t['sub'][i + 1:])
    for i, s in enumerate(t.get('sub', [])):
        for c in shrink_tm(s, False):
            sub = list(t['sub'])
            sub[i] = c
            yield with_key(t, 'sub', sub)
    if t.get('p') and any(p is not None for p in t['p']):
        yield with_key(t, 'p', [None] * len(t['p']))
    for i, v in enumerate(t.get('v', [])):
        if v[0] == 'cint' and v[3] > 2:
            vs = list(t['v'])
            vs[i] = v[:3] + [2]
            yield with_key(t, 'v', vs)
        if v[0] in ('l', 't', 'a', 'ai') and len(v[1]) > 2:
            vs = list(t['v'])
            vs[i] = [v[0], v[1][:2]]
            yield with_key(t, 'v', vs)


def shrink_cfg(cfg):
    """smaller configurations (batch or online)"""
    if cfg.get('ts'):
        yield with_key(cfg, 'ts', None)
    n = len(cfg['data']['v'])
    if n > 3:
        for m in (3, n // 2, n - 1):
            if 3 <= m < n:
                c = with_key(cfg, 'data', with_key(cfg['data'], 'v', cfg['data']['v'][:m]))
                if c.get('ts'):
                    c['ts'] = with_key(c['ts'], 'v', c['ts']['v'][:m])
                yield c
    for o in shrink_om(cfg['om']):
        yield with_key(cfg, 'om', o)
    if 'tm' in cfg:
        for t in shrink_tm(cfg['tm']):
            yield with_key(cfg, 'tm', t)
    if 'tms' in cfg:
        if len(cfg['tms']) > 1:
            for i in range(len(cfg['tms'])):
                c = with_key(cfg, 'tms', cfg['tms'][:i] + cfg['tms'][i + 1:])
                c.pop('tmprior', None)
                yield c
        for i, (nm, t) in enumerate(cfg['tms']):
            for u in shrink_tm(t):
                l = list(cfg['tms'])
                l[i] = [nm, u]
                yield with_key(cfg, 'tms', l)


def looks_cfg(d):
    return isinstance(d, dict) and 'om' in d and 'data' in d


def shrink_plan(plan):
    """default: drop list elements of 'ops', 'faults', 'queries'..., then shrink contained configurations"""
    for k in sorted(plan):
        v = plan[k]
        if isinstance(v, list) and v and k not in ('tms',) and not k.startswith('_'):
            if k not in ('cfgs',):
                for c in shrink_list(v):
                    yield with_key(plan, k, c)
    for k in sorted(plan):
        v = plan[k]
        if isinstance(v, bool) and v:
            yield with_key(plan, k, False)
    for k in sorted(plan):
        v = plan[k]
        if looks_cfg(v):
            for c in shrink_cfg(v):
                yield with_key(plan, k, c)
        elif isinstance(v, list):
            for i, e in enumerate(v):
                if looks_cfg(e):
                    for c in shrink_cfg(e):
                        l = list(v)
                        l[i] = c
                        yield with_key(plan, k, l)
                elif isinstance(e, dict):
                    for c in shrink_plan(e):
                        l = list(v)
                        l[i] = c
                        yield with_key(plan, k, l)
        elif isinstance(v, dict):
            for c in shrink_plan(v):
                yield with_key(plan, k, c)
