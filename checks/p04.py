"""P04: uniform replay buffer = the most recent transitions, each sampled at most once."""
import random

import numpy as onp

from engine.harness import Check


def mk(h, B, t):
    """ batch of B transitions whose contents are all distinguishable """
    from coax.reward_tracing import TransitionBatch
    d = dict(S=h.reals(f's{t}', (B,)), A=h.reals(f'a{t}', (B,)), logP=h.reals(f'l{t}', (B,), -5, 0),
             Rn=h.reals(f'r{t}', (B,)), In=h.reals(f'i{t}', (B,), 0, 1),
             S_next=h.reals(f'n{t}', (B,)), A_next=h.reals(f'an{t}', (B,)),
             logP_next=h.reals(f'ln{t}', (B,), -5, 0), W=h.reals(f'w{t}', (B,), 0.1, 3))
    tb = TransitionBatch(**d)
    rows = [{k: v[i] for k, v in d.items()} for i in range(B)]
    return tb, rows


def same(h, tb, pos, row, ident, msg):
    for k, v in row.items():
        h.check_eq(getattr(tb, k)[pos], v, f'{msg}: {k}')
    h.check(int(tb.idx[pos]) == ident, f'{msg}: identifier')


def stub_random(h):
    """ an arbitrary source of randomness: every draw below n is a fresh symbolic int """
    class R(random.Random):
        cnt = 0

        def _randbelow(self, n):
            R.cnt += 1
            return h.choice(f'draw{R.cnt}', 0, n - 1)

        def random(self):
            R.cnt += 1
            return h.choice(f'draw{R.cnt}', 0, 7) / 8

        def getrandbits(self, k):
            return self._randbelow(2 ** k)

        def seed(self, *a, **k):
            pass

        def getstate(self):
            return 'state'

        def setstate(self, s):
            pass
    return R()


def h_ops(cap, sizes, clear=False):
    def f(h):
        import coax
        from coax.experience_replay import _simple
        buf = coax.experience_replay.SimpleReplayBuffer(cap, random_seed=13)
        h.check(buf.capacity == cap and len(buf) == 0 and not buf, 'a new buffer is empty')
        seen = []
        ident = 0
        for t, mx in enumerate(sizes):
            if clear and t and h.flag(f'clear{t}'):
                buf.clear()
                seen, ident = [], 0
                h.check(len(buf) == 0 and not buf, 'clear empties the buffer')
            B = h.choice(f'B{t}', 1, mx)
            tb, rows = mk(h, B, t)
            buf.add(tb)
            for r in rows:
                seen.append((ident, r))
                ident += 1
            keep = seen[-cap:]
            h.check(len(buf) == len(keep) and bool(buf), 'size is min(capacity, number added)')
            got = list(buf)
            h.check(len(got) == len(keep), 'iteration yields every stored transition')
            for g, (i, r) in zip(got, keep):
                h.check(g.batch_size == 1, 'stored transitions are single')
                same(h, g, 0, r, i, 'the most recent transitions are kept, oldest first')
        h.witness(f'ops-{cap}-{len(sizes)}-{clear}')
    return f


def h_sample(cap, total):
    def f(h):
        import coax
        from coax.experience_replay import _simple
        buf = coax.experience_replay.SimpleReplayBuffer(cap, random_seed=13)
        seen = []
        n = h.choice('n', 1, total)
        for t in range(n):
            tb, rows = mk(h, 1, t)
            buf.add(tb)
            seen.append((t, rows[0]))
        keep = dict(seen[-cap:])
        k = h.choice('k', 1, len(keep))
        old = _simple.__dict__.get('random')
        if h.symbolic and old is not None:
            _simple.random = stub_random(h)
        try:
            b = buf.sample(k)
        finally:
            if h.symbolic and old is not None:
                _simple.random = old
        h.check(b.batch_size == k, 'sample has the requested size')
        ids = [int(i) for i in b.idx]
        h.check(len(set(ids)) == k, 'a transition is sampled at most once per batch')
        h.check(all(i in keep for i in ids), 'only stored transitions are sampled')
        for p, i in enumerate(ids):
            if i in keep:
                same(h, b, p, keep[i], i, 'sampled rows are stored rows')
        h.check(len(buf) == len(keep), 'sampling does not consume')
        for g, (i, r) in zip(list(buf), seen[-cap:]):
            same(h, g, 0, r, i, 'sampling leaves the buffer unchanged')
        h.witness(f'sample-{cap}')
    return f


def h_seed(cap):
    """ the seed decides the samples, whatever happens to the global random state """
    def f(h):
        import coax
        seed = h.choice('seed', 0, 2)
        tamper = h.flag('tamper')
        outs = []
        for rep in range(2):
            buf = coax.experience_replay.SimpleReplayBuffer(cap, random_seed=seed)
            for t in range(cap):
                tb, _ = mk(h, 1, t)
                buf.add(tb)
            res = []
            for q in range(2):
                if rep and tamper:
                    random.seed(99 + q)
                res.append([int(i) for i in buf.sample(2).idx])
            outs.append(res)
        h.check(outs[0] == outs[1], 'samples are reproducible from the seed')
        h.check(outs[0][0] != outs[0][1] or cap < 6, 'successive samples are not replays of one draw')
    return f


def h_type():
    def f(h):
        import coax
        buf = coax.experience_replay.SimpleReplayBuffer(3)
        tb, _ = mk(h, 1, 0)
        try:
            buf.add(tuple(tb))
            ok = False
        except TypeError:
            ok = True
        h.check(ok and len(buf) == 0, 'only transition batches are accepted')
    return f


def build(tier):
    th = tier == 'thorough'
    c = Check('P04', bounds={'capacity': '1..4 (5 thorough)', 'adds': '3 batches of 1..3 rows',
                             'draws': 'every outcome of the random source (stubbed), batch 1..cap',
                             'contents': 'any reals'},
              assumptions=['each add receives a batch object of its own'])
    for cap in (1, 2, 3, 4) + ((5, 7) if th else ()):
        c.harness(f'ops-{cap}', h_ops(cap, (3, 3, 3) if cap < 4 or th else (3, 2, 2)))
        c.harness(f'clear-{cap}', h_ops(cap, (2, 3, 2), True))
        if cap <= 4:
            c.harness(f'sample-{cap}', h_sample(cap, cap + 2), budget_s=100)
    c.harness('seed', h_seed(4), numpy=False)
    c.harness('seed-big', h_seed(30), numpy=False)
    c.harness('type', h_type())
    return c
