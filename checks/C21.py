from symx.api import *
from chainerrl.envs.abc import ABC

BOUNDS = ('problem sizes 1..3, <= 5 operations (step or reset), all actions, '
          'all settings')
ASSUMPTIONS = ['in the stochastic continuous setting the random choice is an '
               'arbitrary action of positive probability']


@harness(quick=[dict(size=s, discrete=d, det=t, steps=n)
                for s, d, t, n in [(1, True, False, 3), (2, True, True, 5),
                                   (3, True, False, 4), (2, False, True, 3),
                                   (2, False, False, 2), (3, False, True, 2)]],
         thorough=[dict(size=3, discrete=True, det=True, steps=6),
                   dict(size=3, discrete=False, det=False, steps=3)])
def dynamics(x, size, discrete, det, steps):
    po, epi = x.flag('po'), x.flag('episodic')
    env = ABC(size=size, discrete=discrete, partially_observable=po,
              episodic=epi, deterministic=det)
    x.check(env.observation_space.shape == (size + 2,), 'observation space')
    x.check(env.action_space.n == size if discrete else
            env.action_space.shape == (size,), 'action space')
    ep = [0]
    off = [0]

    def observed(o, state):
        x.check(o.shape == (size + 2,), 'observation shape')
        for i in range(size + 2):
            x.eq(o[i], ite(off[0] + state == i, 1, 0) if is_sym(off[0]) else
                 int(off[0] + state == i), 'one-hot observation')

    def reset():
        k = len(x.draws)
        o = env.reset()
        ep[0] += 1
        if not po:
            off[0] = 0
        elif det:
            off[0] = off_det(ep[0])
        else:
            new = x.draws[k:]
            x.check(len(new) == 1 and tuple(new[0][:2]) == (0, 1),
                    'random shift of 0 or 1')
            off[0] = int(new[0][2])
        observed(o, 0)
        return 0

    def off_det(n):
        return n % 2 if first[0] else 1 - n % 2
    # the first episode decides the phase; it alternates afterwards
    first = [True]
    if po and det:
        o = env.reset()
        first[0] = bool(o[1] == 1)
        ep[0] = 1
    state = reset()
    done = False
    for t in range(steps):
        if done or (t and x.flag('reset%d' % t)):
            state = reset()
            done = False
            continue
        if discrete:
            a = x.int('a%d' % t, 0, size - 1)
            right = a == state
        else:
            a = x.reals('a%d' % t, size, -2, 2)
            keep = a.copy()
            clipped = [smax(-1, smin(1, a[i])) for i in range(size)]
        k = len(x.draws)
        o, r, d, info = env.step(a)
        if not discrete:
            x.eq(a, keep, 'the action is not modified')
            if det:
                # the most probable action is taken (any one if tied)
                moved = bool(r == 1) if state == size - 1 else \
                    bool(o[off[0] + state + 1] == 1 and
                         not (epi and d))
                best = land(*[clipped[state] >= c for c in clipped])
                strict = land(*[clipped[state] > c for i, c in
                                enumerate(clipped) if i != state])
                x.check(implies(strict, moved), 'most probable action taken')
                x.check(implies(moved, best), 'most probable action taken')
                right = moved
            else:
                new = x.draws[k:]
                x.check(len(new) == 1 and tuple(new[0][:2]) == (0, size - 1),
                        'one random choice of an action')
                right = new[0][2] == state
                p = x.choice_p[-1]
                es = [np.exp(x.array([c], 'f8'))[0] for c in clipped]
                for i in range(size):
                    x.eq(p[i] * sum(es), es[i],
                         'softmax of the clipped action')
        right = bool(right)
        want_r, want_d = 0, False
        if right:
            if state == size - 1:
                want_r = 1
                want_d = epi
                state = size if epi else 0
            else:
                state += 1
        elif epi:
            want_d = True
            state = size
        x.check(r == want_r, 'reward 1 only for completing the sequence')
        x.check(d == want_d, 'terminal flag')
        observed(o, state)
        done = want_d
