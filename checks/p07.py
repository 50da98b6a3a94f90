"""P07: ConnectFourEnv plays Connect Four."""
import numpy as onp

from engine.harness import Check

R, C = 6, 7
LINES = []
for r in range(R):
    for c in range(C):
        for dr, dc in ((0, 1), (1, 0), (1, 1), (1, -1)):
            cells = [(r + k * dr, c + k * dc) for k in range(4)]
            if all(0 <= i < R and 0 <= j < C for i, j in cells):
                LINES.append(cells)
assert len(LINES) == 69


def wins(h, own):
    return h.or_(*[h.and_(*[own[i][j] for i, j in ln]) for ln in LINES])


def env_class():
    from coax.envs import ConnectFourEnv

    class E(ConnectFourEnv):
        state_id = property(lambda self: 'stub')   # formatting stub (not the subject here)
    return E


def position(h, levels_of):
    """ an arbitrary gravity-consistent position without a winner """
    me = h.choice('to_move', 1, 2)
    hgt = [h.int(f'h{c}', *levels_of.get(c, (0, R))) for c in range(C)]
    mine, theirs, cell = [], [], []
    for r in range(R):
        m, t, z = [], [], []
        for c in range(C):
            filled = hgt[c] >= R - r
            who = h.bool(f'o{r}_{c}')
            mm, tt = h.and_(filled, who), h.and_(filled, h.not_(who))
            m.append(mm)
            t.append(tt)
            z.append(h.ite(mm, me, h.ite(tt, 3 - me, 0)))
        mine.append(m)
        theirs.append(t)
        cell.append(z)
    h.assume(h.not_(wins(h, mine)))
    h.assume(h.not_(wins(h, theirs)))
    h.feasible()
    return me, hgt, mine, theirs, cell


def inject(h, env, me, hgt, cell):
    if h.symbolic:
        env._state = h.arr(cell)
        env._levels = h.arr([h.ite(x >= R, 255, R - 1 - x) for x in hgt])
    else:
        env._state = onp.array(cell, dtype='uint8')
        env._levels = onp.array([(R - 1 - x) % 256 for x in hgt], dtype='uint8')
    env._players = onp.array([me, 3 - me], dtype='uint8')
    env._prev_action = None
    env.done = False


def check_obs(h, s, mover, other, full, where):
    """ s: observation; mover/other: bool boards of the player to move and the opponent """
    h.check(onp.shape(s) == (R + 1, C, 2), f'{where}: observation shape')
    for c in range(C):
        for p in (0, 1):
            h.check(h.eq(s[0, c, p] != 0, h.not_(full[c])), f'{where}: availability mask')
    for r in range(R):
        for c in range(C):
            h.check(h.eq(s[r + 1, c, 0] != 0, mover[r][c]), f'{where}: tokens of the player to move')
            h.check(h.eq(s[r + 1, c, 1] != 0, other[r][c]), f'{where}: tokens of the opponent')


def h_step(a, lvl, others):
    """ one legal move in column a at height lvl, from any position """
    def f(h):
        env = env_class()()
        lv = {a: (lvl, lvl)}
        for c in range(C):
            if c != a:
                lv[c] = {'open': (0, R - 1), 'full': (R, R),
                         'mixed': (R, R) if c % 2 else (0, R - 1)}[others]
        me, hgt, mine, theirs, cell = position(h, lv)
        inject(h, env, me, hgt, cell)
        got = env.step(a)
        s, r, done = got[0], got[1], got[2]
        mine[R - 1 - lvl][a] = True
        win = wins(h, mine)
        full = [hgt[c] >= R if c != a else lvl + 1 >= R for c in range(C)]
        draw = h.and_(*full)
        h.check(h.eq(bool(done), h.or_(win, draw)), 'the game ends exactly on a win or a full board')
        h.check(h.eq(h.eq(r, 1), win), 'reward 1 exactly for a win')
        h.check(h.or_(h.eq(r, 1), h.eq(r, 0)), 'otherwise reward 0')
        h.check(bool(env.done) == bool(done), 'done flag is kept')
        check_obs(h, s, theirs, mine, full, 'after a move')
        mask = env.available_actions_mask
        for c in range(C):
            h.check(h.eq(bool(mask[c]), h.not_(full[c])), 'available actions are the open columns')
        h.witness(f'step-{a}-{lvl}-{others}')
    return f


def h_illegal(others):
    """ full column, finished game, nonsense action: refused, nothing changes """
    def f(h):
        from coax._base.errors import UnavailableActionError, EpisodeDoneError
        env = env_class()()
        a = h.choice('a', -1, C)
        kind = h.choice('kind', 0, 1)
        lv = {c: ((R, R) if c == a else (R, R) if others == 'full' and c % 2 else (0, R - 1))
              for c in range(C)}
        if kind == 1:
            lv = {c: (0, R - 1) for c in range(C)}
        me, hgt, mine, theirs, cell = position(h, lv)
        inject(h, env, me, hgt, cell)
        env.done = kind == 1
        err = None
        try:
            env.step(a)
        except (UnavailableActionError, EpisodeDoneError, ValueError) as e:
            err = type(e)
        if kind == 1:
            h.check(err is EpisodeDoneError, 'no moves after the game has ended')
        elif not 0 <= a < C:
            h.check(err is ValueError, 'actions outside the board are refused')
        else:
            h.check(err is UnavailableActionError, 'moves in a full column are refused')
        check_obs(h, env.state, mine, theirs, [x >= R for x in hgt], 'after a refused move')
    return f


def h_play(T):
    """ play from the start: turns alternate, tokens pile up, ids round-trip """
    def f(h):
        from coax.envs import ConnectFourEnv
        env = ConnectFourEnv()
        s = env.reset()
        s = s[0] if isinstance(s, tuple) else s
        cols = [[] for _ in range(C)]
        check_obs(h, s, *boards(cols, 0), [False] * C, 'start')
        done = False
        for t in range(T):
            a = h.choice(f'a{t}', 0, C - 1)
            if len(cols[a]) >= R:
                return
            s, r, done, info = env.step(a)[:4]
            cols[a].append(t % 2)
            mover, other = boards(cols, (t + 1) % 2)
            check_obs(h, s, mover, other, [len(c) >= R for c in cols], 'play')
            w = wins(h, other)
            h.check(bool(done) == bool(w) and r == (1.0 if w else 0.0), 'play: outcome')
            # a copy restored from the state id behaves identically
            env2 = ConnectFourEnv()
            env2.set_state(env.state_id)
            h.check(onp.array_equal(env2.state, env.state), 'state id: observation restored')
            h.check(env2.state_id == env.state_id and bool(env2.done) == bool(env.done),
                    'state id: identifier restored')
            h.check(list(env2.available_actions) == list(env.available_actions),
                    'state id: available actions restored')
            if done:
                return
        b = h.choice('b', 0, C - 1)
        if len(cols[b]) < R:
            x, y = env.step(b), env2.step(b)
            h.check(onp.array_equal(x[0], y[0]) and x[1] == y[1] and x[2] == y[2],
                    'state id: restored game continues identically')
        env.reset()
        h.check(onp.array_equal(env.state, ConnectFourEnv().state) and not env.done,
                'reset returns to the start')
    return f


def boards(cols, who):
    mine = [[len(cols[c]) >= R - r and cols[c][R - 1 - r] == who for c in range(C)]
            for r in range(R)]
    other = [[len(cols[c]) >= R - r and cols[c][R - 1 - r] != who for c in range(C)]
             for r in range(R)]
    return mine, other


def h_long(pattern):
    """ long concrete games towards a full board """
    def f(h):
        from coax.envs import ConnectFourEnv
        env = ConnectFourEnv()
        env.reset()
        cols = [[] for _ in range(C)]
        for t in range(R * C):
            k = h.choice(f'a{t}', 0, C - 1) if not h.symbolic else pattern[t]
            for d in range(C):
                a = (k + d) % C
                if len(cols[a]) < R:
                    break
            s, r, done, info = env.step(a)[:4]
            cols[a].append(t % 2)
            mover, other = boards(cols, (t + 1) % 2)
            w = wins(h, other)
            full = all(len(c) >= R for c in cols)
            check_obs(h, s, mover, other, [len(c) >= R for c in cols], 'long play')
            h.check(bool(done) == bool(w or full), 'long play: done')
            h.check(r == (1.0 if w else 0.0), 'long play: reward')
            env2 = ConnectFourEnv()
            env2.set_state(env.state_id)
            h.check(onp.array_equal(env2.state, env.state), 'long play: state id')
            if done:
                return
    return f


# a draw: alternate columns in an order without four in a row
DRAW = [0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 1, 1, 3, 2, 2, 2, 2, 2, 2, 3, 3, 3, 3, 3, 4, 4, 4, 4, 4, 4,
        5, 5, 5, 5, 5, 5, 6, 6, 6, 6, 6, 6]


def build(tier):
    th = tier == 'thorough'
    c = Check('P07', bounds={
        'position': 'any gravity-consistent 6x7 position without a winner (all 42 cells and all '
                    'heights symbolic; which other columns are full: none, all, or every second; '
                    'thorough adds more)',
        'move': 'all 7 columns x 6 heights, plus refused moves',
        'histories': 'one step from an arbitrary position (inductive); all games of 3 plies (4 '
                     'thorough) from the start incl. state-id round trip'},
        assumptions=['the two players have not both already won'], procs=8)
    for a in range(C):
        for lvl in range(R):
            c.harness(f'step-{a}-{lvl}', h_step(a, lvl, 'open'), conc=3, budget_s=240)
            if th or lvl == R - 1:
                c.harness(f'stepf-{a}-{lvl}', h_step(a, lvl, 'full'), conc=3, budget_s=240)
            if th or lvl in (a % R,):
                c.harness(f'stepm-{a}-{lvl}', h_step(a, lvl, 'mixed'), conc=3, budget_s=240)
    c.harness('illegal', h_illegal('open'), conc=10)
    c.harness('illegalf', h_illegal('full'), conc=10)
    c.harness('play', h_play(3 if th else 2), numpy=False, conc=20)
    c.harness('long', h_long(DRAW), numpy=False, conc=30)
    return c
