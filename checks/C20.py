from symx.api import *
from symx import patch as P
from chainerrl.envs import ale as mod

BOUNDS = ('one reset and <= 2 steps, frame skips 1..3, <= 2 null actions, '
          'arbitrary rewards, lives 0..3 and game ends per frame, both life '
          'settings, 1..4 last screens, cropped and scaled')
ASSUMPTIONS = ['the emulator is a stand-in with arbitrary rewards, lives and '
               'game ends; screens are uniform images of per-frame brightness',
               'OpenCV resizing of a uniform image gives a uniform image']


RAW = np.zeros((210, 160, 3), dtype=np.uint8)


class Emu(object):
    """Stand-in for atari_py.ALEInterface."""

    def __init__(self, x, cfg):
        self.x, self.cfg = x, cfg
        self.opts = {}
        self.log = []
        self.frame = 0
        self.over = False
        self.n = 0
        self.l = 3

    def setInt(self, k, v):
        self.opts[k] = v
    setFloat = setBool = setString = setInt

    def loadROM(self, p):
        self.log.append(('rom', p))

    def getFrameNumber(self):
        return self.frame

    def getMinimalActionSet(self):
        return [0, 7, 3]

    def game_over(self):
        return self.over

    def reset_game(self):
        self.x.check(self.over, 'a running game is not restarted')
        self.over = False
        self.l = 3
        self.log.append(('reset',))

    def lives(self):
        return self.l

    def bright(self):
        return self.cfg['bright'](self.n)

    def getScreenRGB(self):
        im = RAW.copy()
        im[:, :, 0] = self.bright()
        im[:, :, 1] = self.bright() // 2
        im[:, :, 2] = 255 - self.bright()
        return im

    def act(self, a):
        self.x.check(not self.over, 'no action after the game is over')
        self.n += 1
        r = self.x.int('r%d' % self.n, -3, 3)
        if self.cfg['lives'] and a != 0:
            self.l = self.x.choice('l%d' % self.n, (2, 3, 4))
        self.over = self.x.flag('over%d' % self.n)
        self.log.append(('act', a, r, self.l, self.over, self.bright()))
        return r


class AtariPy(object):
    def __init__(self, emu):
        self.emu = emu

    def get_game_path(self, game):
        return '/roms/' + game

    def ALEInterface(self):
        return self.emu


def up(n):
    return (10 + 13 * n) % 256


def down(n):
    return (240 - 17 * n) % 256


def luma(prev, cur):
    c = [max(p, q) for p, q in zip((prev, prev // 2, 255 - prev),
                                   (cur, cur // 2, 255 - cur))]
    return int(0.299 * c[0] + 0.587 * c[1] + 0.114 * c[2])


def near(img, v):
    # (rounding of the luminance is not specified)
    return abs(np.asarray(img).astype('i4') - v).max() <= 1


def make(x, emu, **k):
    old, avail = mod.__dict__.get('atari_py'), mod.atari_py_available
    mod.atari_py, mod.atari_py_available = AtariPy(emu), True

    class ALE(mod.ALE):
        # screens are concrete: numpy itself works on them
        def current_screen(self):
            with P.unpatched():
                return super(ALE, self).current_screen()
    try:
        return ALE('game', **k)
    finally:
        mod.atari_py, mod.atari_py_available = old, avail


def check_reset(x, env, emu, draws, was_over, state, n_screens, maxnull):
    log = emu.log
    if was_over:
        x.check(log and log[0] == ('reset',), 'new game after game over')
        log = log[1:]
    acts = [e for e in log if e[0] == 'act']
    x.check(all(e[1] == 0 for e in acts), 'only null actions on reset')
    x.check(len(acts) <= maxnull, 'at most max_start_nullops null actions')
    if maxnull:
        x.check(any(tuple(d[:2]) == (0, maxnull) and d[2] == len(acts)
                    for d in draws), 'uniform number of null actions')
    for i, e in enumerate(log):
        if e[0] == 'reset':
            x.check(log[i - 1][0] == 'act' and log[i - 1][4],
                    'restart only after game over')
    x.check(not emu.over, 'the game is running after reset')
    x.check(len(state) == n_screens, 'number of screens')
    for s in state:
        x.check(s.shape == (84, 84) and s.dtype == np.uint8, 'screen shape')
    x.check(not any(np.asarray(s).any() for s in state[:-1]),
            'no screens before the first')
    cur = luma(emu.bright(), emu.bright())
    x.check(near(state[-1], cur), 'the current screen')


@harness(quick=[
    dict(skip=1, life=True, mode='scale', n=2, null=0, pat='up'),
    dict(skip=2, life=True, mode='crop', n=1, null=0, pat='down'),
    dict(skip=3, life=True, mode='scale', n=3, null=0, pat='up', steps=1),
    dict(skip=2, life=False, mode='scale', n=2, null=1, pat='up'),
    dict(skip=1, life=False, mode='scale', n=4, null=2, pat='down', steps=1),
])
def episode(x, skip, life, mode, n, null, pat, steps=2):
    emu = Emu(x, dict(bright={'up': up, 'down': down}[pat], lives=life))
    k = len(x.draws)
    env = make(x, emu, seed=5, n_last_screens=n, frame_skip=skip,
               treat_life_lost_as_terminal=life, crop_or_scale=mode,
               max_start_nullops=null)
    x.check(emu.log[0] == ('rom', b'/roms/game'), 'the ROM of the game')
    x.check(env.action_space.n == 3 and env.number_of_actions == 3,
            'minimal action set')
    x.check(len(env.observation_space.spaces) == n, 'observation space')
    del emu.log[0]
    check_reset(x, env, emu, x.draws[k:], False, env.state, n, null)
    screens = list(env.state)
    # an earlier state may be over: the next reset starts a new game
    for t in range(steps):
        if t and env.is_terminal:
            was = emu.over
            del emu.log[:]
            k = len(x.draws)
            o = env.reset()
            check_reset(x, env, emu, x.draws[k:], was, o, n, null)
            x.check(not env.is_terminal, 'not terminal after reset')
            screens = list(o)
        del emu.log[:]
        before = emu.n
        lives = emu.l
        a = x.choice('a%d' % t, (1, 2) if t else (2,))
        o, r, d, info = env.step(a)
        log = emu.log
        x.check(all(e[:2] == ('act', [0, 7, 3][a]) for e in log),
                'the legal action is repeated')
        over = []
        for e in log:
            over.append(e[4] or (life and e[3] < lives))
            lives = e[3]
        x.check(len(log) == skip or over[-1], 'all frames are played')
        x.check(not any(over[:-1]), 'stopped at the first terminal frame')
        x.eq(r, sum(e[2] for e in log), 'rewards are summed')
        x.check(d == over[-1], 'terminal on game over (or a lost life)')
        x.check(env.is_terminal == d and len(o) == n, 'state')
        if not d:
            prev = log[-2][5] if len(log) > 1 else emu.cfg['bright'](before)
            x.check(near(o[-1], luma(prev, log[-1][5])),
                    'maximum of the last two frames')
            for p, q in zip(o[:-1], screens[1:]):
                x.check((np.asarray(p) == np.asarray(q)).all(),
                        'earlier screens move up')
        if d:
            x.raises(AssertionError, lambda: env.step(0),
                     'no step after the end')
        screens = list(o)


@harness(quick=[dict(given=True), dict(given=False)])
def settings(x, given):
    emu = Emu(x, dict(bright=up, lives=False))
    seed = x.int('seed', 0, 2 ** 31 - 1) if given else None
    make(x, emu, seed=seed, max_start_nullops=0)
    s = emu.opts[b'random_seed']
    if given:
        x.check(s == seed, 'the given seed is used')
    else:
        x.check(len(x.draws) == 1 and s is x.draws[0][2] and
                tuple(x.draws[0][:2]) == (0, 2 ** 31 - 1),
                'the seed comes from numpy\'s random state')
    x.check(emu.opts[b'repeat_action_probability'] == 0.0,
            'deterministic actions')
    x.raises(AssertionError, lambda: make(x, emu, seed=-1), 'negative seed')
    x.raises(AssertionError, lambda: make(x, emu, seed=2 ** 31),
             'too large seed')
