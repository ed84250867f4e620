"""Seeded generators of scripts for the driver. A family is a function rng, big -> list of lines."""
import json, math, random

IMIN, IMAX = -2147483648, 2147483647


def sq(s):
    return '%d%s' % (len(s), ''.join(' %d' % x for x in s))


def sqs(l):
    return '%d%s' % (len(l), ''.join(' ' + sq(s) for s in l))


def hx(s):
    b = s if isinstance(s, bytes) else s.encode()
    return b.hex() if b else '-'


def hxs(l):
    return '%d%s' % (len(l), ''.join(' ' + hx(s) for s in l))


def ex(e):
    return '-' if e is None else sq(sorted(e))


# ---------------------------------------------------------------- data

def alphabet(r, lo=1, hi=5):
    k = r.randint(lo, hi)
    c = r.random()
    if c < 0.55:
        return list(range(1, k + 1))
    if c < 0.65:
        return list(range(0, k))
    if c < 0.8:
        return r.sample(range(-50, 50), k)
    if c < 0.9:
        return r.sample([IMIN, IMAX, -1, 0, 1, IMIN + 1, IMAX - 1, 65536, -65536, 1 << 30], min(k, 10))
    return r.sample(range(-10 ** 9, 10 ** 9), k)


def rword(r, al, lo, hi):
    return [r.choice(al) for _ in range(r.randint(lo, hi))]


def words(r, al, n, maxlen):
    """distinct non-empty words with many common prefixes"""
    S = []
    seen = set()
    for _ in range(n * 4):
        if len(S) >= n:
            break
        c = r.random()
        if S and c < 0.4:
            w = r.choice(S) + rword(r, al, 1, 2)
        elif S and c < 0.5:
            b = r.choice(S)
            w = b[:r.randint(1, len(b))]
        elif S and c < 0.6:
            w = r.choice(S) + r.choice(S)
        else:
            w = rword(r, al, 1, max(1, min(4, maxlen)))
        w = w[:maxlen]
        if tuple(w) not in seen:
            seen.add(tuple(w))
            S.append(w)
    r.shuffle(S)
    return S


def dictionary(r, al, big):
    n = r.choice([0, 1, 2, 3, 5, 8, 12, 16]) if not big else r.choice([20, 40, 80])
    maxlen = r.choice([1, 2, 3, 4, 6, 10]) if not big else r.choice([3, 8, 30])
    S = words(r, al, n, maxlen)
    c = r.random()
    if c < 0.5:                      # closed under symbols
        have = {tuple(w) for w in S}
        S += [[a] for a in al if (a,) not in have]
        r.shuffle(S)
    elif c < 0.65:
        S.sort()
    elif c < 0.75:
        S.sort(reverse=True)
    return S


def text_over(r, S, al, lo, hi, fresh=0.05):
    """a sequence composed of words of S, symbols and now and then an unknown symbol"""
    n = r.randint(lo, hi)
    s = []
    pool = S[:]
    while len(s) < n:
        c = r.random()
        if c < fresh:
            s.append(r.choice([97, 98, 99, -98, IMAX, IMIN, 777]))
        elif pool and c < 0.7:
            w = r.choice(pool)
            if r.random() < 0.2:
                w = w[:-1]
            s += w
        else:
            s.append(r.choice(al))
    return s[:n]


def exclusions(r, S, s):
    """ids to exclude from a search of s in the sorted dictionary of S"""
    d = sorted(map(list, S))
    pre = [i for i, w in enumerate(d) if s[:len(w)] == w]
    e = set(i for i in pre if r.random() < 0.5)
    e |= set(r.randint(0, len(d) + 2) for _ in range(r.randint(0, 3)))
    return e


def weights(r, n):
    c = r.random()
    m = r.choice([n, n, n, max(0, n - r.randint(1, 3)), n // 2, 0, n + 2])
    if c < 0.15:
        w = [0] * m
    elif c < 0.5:
        w = [r.randint(0, 20) for _ in range(m)]
    elif c < 0.8:
        w = [r.choice([0, 0, 1, 2, 50, 1000]) for _ in range(m)]
    else:
        w = [r.choice([0, 1, 10 ** 6, 10 ** 7, 3 * 10 ** 8]) for _ in range(m)]
    while sum(w) > 10 ** 9:
        w = [x // 10 for x in w]
    t = sum(w)
    tot = r.choice([t, t, t, t + r.randint(0, 100), t // 2, 0])
    return w, tot


# ---------------------------------------------------------------- dictionaries

def d_mix(r, big):
    """search, greedy and weighted parses, growth, copies of dictionaries"""
    L = []
    al = alphabet(r)
    S = dictionary(r, al, big)
    hs = ['a']
    c = r.random()
    if c < 0.1:
        S = [[a] for a in al]
        L.append('d_new a 1 ' + sqs(S))
    elif c < 0.18:
        S = []
        L.append('d_new a 2 0')
    else:
        L.append('d_new a 0 ' + sqs(S))
    size = len(S)
    for k in range(r.randint(8, 16) if not big else r.randint(6, 10)):
        h = r.choice(hs)
        c = r.random()
        s = text_over(r, S, al, 1, r.choice([3, 6, 12, 30]) if not big else r.choice([10, 40, 120]), r.choice([0, 0, 0.05, 0.2]))
        if c < 0.3:
            for again in range(r.choice([1, 1, 2, 3])):
                e = None if r.random() < 0.4 else exclusions(r, S, s)
                L.append('d_search %s %s %s' % (h, sq(s), ex(e)))
                if again == 1 and r.random() < 0.4:
                    s = s[:max(1, len(s) - 1)] if r.random() < 0.5 else s + s[:1]
        elif c < 0.5:
            e = None if r.random() < 0.5 else exclusions(r, S, s)
            if r.random() < 0.1:
                s = []
            L.append('d_greedy %s %s %s %s' % (h, sq(s), ex(e), sq(rword(r, [0, 5, 9], 0, 2))))
        elif c < 0.85:
            w, tot = weights(r, size)
            if r.random() < 0.1:
                s = []
            L.append('d_weigh %s %s %s %d %s' % (h, sq(s), sq(w), tot, sq(rword(r, [0, 5, 9], 0, 2))))
        elif c < 0.93 and len(hs) < 4:
            n = 'c%d' % len(hs)
            L.append('d_copy %s %s' % (n, h))
            hs.append(n)
        elif len(hs) < 4:
            n = 'n%d' % len(hs)
            L.append('d_new %s 0 %s' % (n, sqs(S)))
            hs.append(n)
    for h in hs:
        L.append('d_obs ' + h)
    return L


def d_search_all(r, big):
    """every word up to a length over a small alphabet, searched with several exclusions"""
    al = r.choice([[1, 2], [1, 2, 3], [-1, 0, 1]])
    n = r.randint(2, 9)
    S = words(r, al, n, r.choice([2, 3, 4, 5]))
    L = ['d_new a 0 ' + sqs(S)]
    todo = []
    for k in range(r.randint(1, 5 if len(al) == 2 else 3)):
        todo = [[]] if not todo else todo
        todo = [t + [x] for t in todo for x in al]
    r.shuffle(todo)
    todo = todo[:24]
    for s in todo:
        for again in range(r.choice([1, 1, 1, 2, 3])):
            e = exclusions(r, S, s) if r.random() < 0.7 else set()
            if r.random() < 0.3 and any(w == s[:len(w)] for w in S):
                e = None
            L.append('d_search a %s %s' % (sq(s), ex(e)))
    for s in todo[:12]:
        e = exclusions(r, S, s)
        L.append('d_greedy a %s %s 0' % (sq(s), ex(e)))
    L.append('d_obs a')
    # now with growth
    for s in todo[:8]:
        L.append('d_search a %s -' % sq(s))
        e = exclusions(r, S, s)
        L.append('d_search a %s %s' % (sq(s), ex(e)))
    for s in todo[:4]:
        L.append('d_greedy a %s - 0' % sq(s))
    return L


def d_grow(r, big):
    """symbols that a dictionary lacks, in any order, also under existing entries; copies before and after"""
    al = alphabet(r, 2, 6)
    n = r.choice([0, 1, 2, 4, 8])
    S = [w for w in words(r, al, n, 4) if len(w) > 1 or r.random() < 0.3]
    L = ['d_new a 0 ' + sqs(S)]
    fresh = alphabet(r, 2, 8)
    hs = ['a']
    pool = al + fresh
    for k in range(r.randint(8, 18)):
        h = r.choice(hs)
        c = r.random()
        s = text_over(r, S, pool, 1, 8, 0.1)
        if c < 0.35:
            L.append('d_search %s %s -' % (h, sq(s)))
        elif c < 0.5:
            L.append('d_search %s %s %s' % (h, sq(s), ex(exclusions(r, S, s) | {len(S) + r.randint(0, 3)})))
        elif c < 0.65:
            L.append('d_greedy %s %s - 0' % (h, sq(s)))
        elif c < 0.75:
            L.append('d_greedy %s %s %s 0' % (h, sq(s), ex({len(S) + r.randint(0, 3), r.randint(0, len(S) + 1)})))
        elif c < 0.92:
            w, tot = weights(r, len(S) + r.randint(0, 3))
            L.append('d_weigh %s %s %s %d 0' % (h, sq(s), sq(w), tot))
        elif len(hs) < 4:
            L.append('d_copy c%d %s' % (len(hs), h))
            hs.append('c%d' % len(hs))
    for h in hs:
        L.append('d_obs ' + h)
    return L


def d_canon(r, big):
    """dictionaries built from the same set in several orders"""
    al = alphabet(r, 1, 4)
    S = words(r, al, r.choice([1, 3, 6, 12, 25]) if not big else r.choice([60, 120]), r.choice([2, 4, 8, 20]))
    L = []
    for k in range(3):
        r.shuffle(S)
        if k == 1:
            S.sort(key=lambda w: (len(w), w))
        if k == 2 and r.random() < 0.5:
            S.sort(key=lambda w: (-len(w), w))
        L.append('d_new a%d 0 %s' % (k, sqs(S)))
        for w in r.sample(S, min(len(S), 6)):
            L.append('d_search a%d %s 0' % (k, sq(w)))
            L.append('d_search a%d %s 0' % (k, sq(w + rword(r, al, 1, 2))))
    return L


def d_weigh_close(r, big):
    """weights for which several segmentations compete"""
    al = r.choice([[1, 2], [1, 2, 3]])
    S = words(r, al, r.choice([4, 8, 14, 20]), r.choice([3, 5, 8]))
    have = {tuple(w) for w in S}
    if r.random() < 0.8:
        S += [[a] for a in al if (a,) not in have]
    L = ['d_new a 0 ' + sqs(S)]
    for k in range(r.randint(8, 14)):
        s = text_over(r, S, al, 1, r.choice([4, 8, 16, 40]), r.choice([0, 0, 0.03]))
        n = len(S)
        top = r.choice([1, 3, 10, 100, 5000])
        w = [r.randint(0, top) for _ in range(r.choice([n, n, n - 1, n // 2]))]
        tot = r.choice([sum(w), sum(w), 0, sum(w) * 3])
        L.append('d_weigh a %s %s %d %s' % (sq(s), sq(w), tot, sq(rword(r, [0, 3], 0, 2)) if r.random() < 0.2 else '0'))
    return L


def d_tie(r, big):
    """two segmentations that nearly tie, weights of every magnitude"""
    L = ['d_new a 0 3 1 1 2 1 2 1 2', 'd_new b 0 5 1 1 2 1 2 1 2 2 2 3 1 3', 'd_new c 0 5 1 1 2 1 1 3 1 1 2 2 1 2 1 2']
    for k in range(r.randint(10, 16)):
        eps = r.choice([0.0004, 0.001, 0.003, 0.01, 0.03, 0.1]) * r.choice([1, -1])
        top = r.choice([30, 80, 300, 3000, 10 ** 5, 10 ** 7, 3 * 10 ** 8])
        u, v = r.randint(top // 3, top), r.randint(top // 3, top)
        c = r.random()
        if c < 0.5:        # {1}, {1,2}, {2}: (u+1)(v+1) against (w+1) T
            T = r.randint(max(4, min(u, v) // 3), min(u, v) + 4)
            w = int((u + 1) * (v + 1) / T * (1 + eps)) - 1
            if w < 0 or w > 2 ** 30 - 2:
                continue
            if c < 0.35:
                L.append('d_weigh a 2 1 2 3 %d %d %d %d 0' % (u, w, v, T - 3))
            else:
                h = 's%d' % k
                L.append('s_new %s 1 0.01 3 1 1 2 1 2 1 2 3 %d %d %d' % (h, u, w, v))
                L.append('s_parse %s 2 1 2 0' % h)
        elif c < 0.8:      # {1},{1,2},{2},{2,3},{3}: (12)(3) against (1)(23)
            x = r.randint(top // 3, top)
            y = int((u + 1) * (v + 1) / (x + 1) * (1 + eps)) - 1
            if y < 0 or y > 2 ** 30 - 2:
                continue
            n = r.choice([1, 1, 3])
            L.append('d_weigh b %s 5 %d %d %d %d %d %d 0' % (sq([1, 2, 3] * n), x, u, 0, y, v, r.choice([0, u + v, 10 ** 6])))
        else:              # {1},{1,1},{1,1,1},{1,1,2,2},{1,2}.. on runs
            s = r.choice([[1] * 4, [1] * 5, [1, 1, 1, 2], [1, 1, 2, 1, 2]])
            T = r.randint(4, top)
            z = int((u + 1) * (v + 1) / T * (1 + eps)) - 1
            if z < 0 or z > 2 ** 30 - 2:
                continue
            L.append('d_weigh c %s 5 %d %d %d 0 %d %d 0' % (sq(s), u, z, v, r.choice([u, v, z]), T))
    return L


def d_long(r, big):
    """long sequences"""
    al = r.choice([[1, 2], [1, 2, 3], [5, -5, 0, 7]])
    S = words(r, al, r.choice([2, 4, 8]), r.choice([3, 8]))
    have = {tuple(w) for w in S}
    S += [[a] for a in al if (a,) not in have]
    L = ['d_new a 0 ' + sqs(S)]
    s = text_over(r, S, al, 600, 600 if not big else 1500, 0)
    s = (s * 4)[:r.choice([700, 1200, 2000]) if not big else 4000]
    w = [r.choice([0, 0, 1, 3, 9, 100]) for _ in S]
    L.append('d_weigh a %s %s %d 0' % (sq(s), sq(w), r.choice([sum(w), 10 ** 6, 10 ** 9])))
    L.append('d_greedy a %s %s 0' % (sq(s), r.choice(['-', ex(exclusions(r, S, s))])))
    k = r.randint(0, 40)
    L.append('d_weigh a %s %s %d 2 3 3' % (sq(s[k:]), sq(w), sum(w)))
    L.append('s_new s 1 0.002 %s -' % sqs(S))
    L.append('s_parse s %s 0' % sq(s[:900]))
    L.append('s_parse s %s 0' % sq(s[:30]))
    return L


# ---------------------------------------------------------------- statistics

def s_mix(r, big):
    al = alphabet(r, 1, 4)
    S = dictionary(r, al, big and r.random() < 0.5)
    mp = r.choice([0.2, 0.05, 0.01, 0.002, 0.0005])
    L = []
    c = r.random()
    if c < 0.15:
        S = []
        L.append('s_new s 0 %g 0 -' % mp)
    else:
        n = len(S)
        init = '-'
        if r.random() < 0.7:
            m = r.choice([n, n, n, max(0, n - 2)])
            init = sq([r.choice([0, 0, 1, 5, 100, 10 ** 6]) if r.random() < .5 else r.randint(0, 30) for _ in range(m)])
        L.append('s_new s 1 %g %s %s' % (mp, sqs(S), init))
    n = len(S)
    heavy = r.random() < 0.25
    left = 15000000
    L.append('s_enough s 1')
    for k in range(r.randint(6, 14)):
        c = r.random()
        s = text_over(r, S, al, 0, r.choice([4, 10, 30, 80]) if not big else 200, r.choice([0, 0, 0.05]))
        if c < (0.6 if not heavy else 0.45):
            L.append('s_parse s %s %s' % (sq(s), sq(rword(r, [0, 1, 5], 0, 2)) if r.random() < 0.25 else '0'))
            n += 0
        elif c < 0.72 and n:
            k = r.choice([1, 2, 7, 1000]) if not heavy else min(left, r.choice([300, 6000, 70000, 1000000, 9000000]))
            left -= k
            L.append('s_upd s %d %d' % (r.randint(0, n - 1), k))
        elif c < 0.82 and s:
            L.append('s_search s %s %s' % (sq(s), ex(None if r.random() < 0.4 else exclusions(r, S, s))))
        else:
            L.append('s_enough s %g' % r.choice([1, 0.1, 0.08, 0.064, 0.5, 0.9, 0.99, 0.001, 1e-5]))
    for p in (0.1, 0.5, 0.9, 0.2, 0.01):
        L.append('s_enough s %g' % p)
    return L


# ---------------------------------------------------------------- learning

class Lang:
    """a source of repetitive sequences"""

    def __init__(self, r, al, nwords=None):
        self.r, self.al = r, al
        nwords = nwords or r.randint(2, 8)
        self.words = [rword(r, al, 2, r.choice([2, 3, 5])) for _ in range(nwords)]
        self.noise = r.choice([0, 0.05, 0.2, 0.5])

    def seq(self, lo, hi):
        r = self.r
        n = r.randint(lo, hi)
        s = []
        while len(s) < n:
            if r.random() < self.noise:
                s.append(r.choice(self.al))
            else:
                s += self.words[min(int(r.expovariate(0.7)), len(self.words) - 1)]
        return s[:n]


def start_builder(r, al, h='b', fast=True):
    """restored builder with a high minimum probability learns quickly"""
    size = r.choice([len(al) + 1, len(al) + 3, len(al) + 8, 3 * len(al) + 10, 30])
    kind = 3 if fast else r.choice([0, 0, 1, 2])
    if kind == 3:
        S = [[a] for a in al]
        if r.random() < 0.5:
            S += [w for w in words(r, al, r.randint(1, 6), 4) if len(w) > 1]
        S.sort()
        fr = [r.choice([0, 1, 3, 10]) for _ in S]
        mp = r.choice([0.2, 0.2, 0.1, 0.05])
        alpha = S[:]
        r.shuffle(alpha)
        if r.random() < 0.2:
            alpha = [w for w in alpha if len(w) == 1]
        return ['b_new %s 3 %d %s %s %s %g' % (h, size, sqs(S), sq(fr), sqs(alpha), mp)], size
    if kind == 0:
        return ['b_new %s 0 %d 0' % (h, size)], size
    S = [[a] for a in al]
    if kind == 1 and r.random() < 0.5:
        S += [w for w in words(r, al, r.randint(1, 4), 3) if len(w) > 1]
    return ['b_new %s %d %d %s' % (h, kind, size, sqs(S))], size


def b_fast(r, big):
    """many learning steps of a restored builder"""
    al = alphabet(r, 2, 5)
    L, size = start_builder(r, al)
    lang = Lang(r, al)
    hold = 0
    n = r.randint(25, 50) if not big else r.randint(60, 120)
    late = r.random() < 0.35
    extra = [x for x in alphabet(r, 1, 3) if x not in al]
    for k in range(n):
        s = lang.seq(0 if r.random() < 0.1 else 3, r.choice([8, 15, 30]))
        if late and extra and k > n // 3 and r.random() < 0.4:
            i = r.randint(0, len(s))
            s = s[:i] + [r.choice(extra)] * r.randint(1, 2) + s[i:]
        L.append('b_acc b ' + sq(s))
        c = r.random()
        if c < 0.25:
            L.append('b_obs b')
        elif c < 0.29 and hold < 4:
            hold += 1
            L.append('b_hold b p%d' % hold)
        elif c < 0.32 and hold < 4:
            hold += 1
            L.append('b_alpha b p%d' % hold)
        elif c < 0.42 and hold:
            h = 'p%d' % r.randint(1, hold)
            s = lang.seq(1, 6)
            if r.random() < 0.3:
                s.append(r.choice([5555, -5555, 6666]))
            e = ex({r.randint(0, 6)}) if r.random() < 0.5 else '-'
            L.append(r.choice(['d_search %s %s %s' % (h, sq(s), e), 'd_greedy %s %s %s 0' % (h, sq(s), e),
                               'd_weigh %s %s %s 20 0' % (h, sq(s), sq([r.randint(0, 9) for _ in range(5)]))]))
    L.append('b_obs b')
    return L


def b_gaps(r, big):
    """restored builders whose dictionary lacks some symbols of its v-grams: these cannot be replaced"""
    al = alphabet(r, 3, 6)
    lack = set(r.sample(al, r.randint(1, 2)))
    vs = [w for w in words(r, al, r.randint(3, 9), 4) if len(w) > 1]
    S = sorted([[a] for a in al if a not in lack] + vs)
    if not S:
        S = [al[:2]]
    size = r.choice([len(S), len(S) + 2, len(al) + 2, len(S) + 8])
    alpha = S[:] if r.random() < 0.6 else [w for w in S if len(w) == 1]
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([r.choice([0, 1, 5, 40]) for _ in S]), sqs(alpha), r.choice([0.2, 0.1, 0.05]))]
    late = r.randint(4, 25)
    used = r.sample(S, max(1, len(S) * 2 // 3))       # the others are never counted
    for k in range(r.randint(15, 30)):
        s = []
        for _ in range(r.randint(2, 10)):
            s += r.choice(used) if r.random() < 0.8 else [r.choice(al)]
        if k < late:                                  # only what the dictionary has
            s = sum((r.choice(used) for _ in range(r.randint(2, 10))), [])
        L.append('b_acc b ' + sq(s))
        if r.random() < 0.25:
            L.append('b_obs b')
    L.append('b_obs b')
    return L


def b_rate(r, big):
    """evidence without structure: only the code length per symbol of the steps goes up and down (at more than 256 symbols over
    one byte, which no step need improve on)"""
    n = r.choice([2, 3, 4, 6, 8, 20]) if r.random() < 0.75 else r.randint(270, 330)
    al = sorted(r.sample(range(-2000, 9000), n))
    S = [[a] for a in al]
    pf, best, turns, P = 0.1, 1.0, 0, 0
    mp = round(-math.log(pf) / (n * r.uniform(4.4, 4.9)) if n > 20 else r.choice([0.01, 0.003, 0.001, 0.0002, 0.00004]), 9)
    L = ['b_new b 3 %d %s %s %s %.9f' % (n + r.choice([0, 2, 30]), sqs(S), sq([0 for _ in S]), sqs(S), mp)]
    fr = [0] * n
    flat = n > 20 or r.random() < 0.2
    for step in range(r.randint(6, 9) if n > 20 else r.randint(8, 30)):
        T = -math.log(pf) / mp
        mp2 = min(mp, 1.0 / n)
        skew = 1.0 if flat else r.choice([1.0, 1.0, 0.9, 0.7, 0.4, 0.1])
        wt = [skew ** i * r.uniform(0.8, 1.2) for i in range(n)]
        safe = int(T * 0.9985) - 3
        for i in range(n):
            k = min(safe - P, max(1, int(safe * wt[i] / sum(wt)) if not n > 20 else r.choice([3, 4, 5])))
            if k > 0:
                L.append('b_bulk b 1 %d %d' % (al[i], k))
                fr[i] += k
                P += k
        rest = []
        while P <= T * 1.0015 + 3:                        # surely due, unless it was due at the symbol before
            i = fr.index(min(fr)) if flat else r.choices(range(n), wt)[0]
            rest.append(i)
            fr[i] += 1
            P += 1
        done = False
        F = fr[:]
        for i in rest:
            F[i] -= 1
        Q = sum(F)
        for i in rest:
            L.append('b_acc b 1 %d' % al[i])
            F[i] += 1
            Q += 1
            if not done and Q > T:
                rate = (Q * math.log2(Q) - sum(f * math.log2(f) for f in F if f)) / 8 / Q
                if abs(rate - best) < 3e-5 * best:         # rounding decides
                    return L
                if rate < best:
                    best, turns = rate, 0
                else:
                    turns += 1
                    if turns > 3:
                        pf *= 0.8
                done = True
                F, Q = [0] * n, 0
                mp = mp2
        fr, P = F, Q
        if r.random() < 0.5:
            L.append('b_obs b')
    return L


def b_fresh(r, big):
    """a new builder with the default minimum probability: a learning step takes about 1200 tokens"""
    al = alphabet(r, 2, 6)
    L, size = start_builder(r, al, fast=False)
    lang = Lang(r, al)
    steps = 3 if not big else 7
    total = 0
    want = 1200 * steps
    while total < want:
        s = lang.seq(60, 250)
        total += len(s) // (1 if total < 1300 else 2) + 1
        L.append('b_acc b ' + sq(s))
        if r.random() < 0.15:
            L.append('b_obs b')
    L.append('b_obs b')
    return L


def b_reload(r, big):
    """learns, and is restored by hand with what a second builder would publish"""
    al = alphabet(r, 2, 4)
    lang = Lang(r, al)
    S = [[a] for a in al] + [w for w in words(r, al, r.randint(2, 8), 5) if len(w) > 1]
    S.sort()
    L = []
    for mode in range(2):
        h = 'b%d' % mode
        fr = [r.choice([0, 1, 4, 20, 300]) for _ in S] if r.random() < 0.6 else [r.choice([0, 7, 3000, 50000, 3 * 10 ** 6]) for _ in S]
        size = r.choice([len(S), len(al) + 2, len(S) + 5, 0])
        mp = r.choice([0.2, 0.1, 0.03])
        L.append('b_new %s 3 %d %s %s %s %g' % (h, size, sqs(S), sq(fr), sqs(S), mp))
        for k in range(r.randint(15, 30)):
            L.append('b_acc %s %s' % (h, sq(lang.seq(2, 25))))
            if r.random() < 0.3:
                L.append('b_obs ' + h)
        L.append('b_obs ' + h)
    return L


def b_two(r, big):
    """builders used in turns, with the dictionaries they hand out"""
    al = alphabet(r, 2, 4)
    L = []
    langs = {}
    for h in ('b', 'c'):
        l, _ = start_builder(r, al, h)
        L += l
        langs[h] = Lang(r, al)
    held = []
    for k in range(r.randint(30, 60)):
        h = r.choice('bc')
        c = r.random()
        if c < 0.6:
            L.append('b_acc %s %s' % (h, sq(langs[h].seq(2, 15))))
        elif c < 0.7:
            L.append('b_obs ' + h)
        elif c < 0.8 and len(held) < 5:
            p = 'p%d' % len(held)
            L.append('%s %s %s' % (r.choice(['b_hold', 'b_alpha']), h, p))
            held.append(p)
        elif held:
            p = r.choice(held)
            s = langs[h].seq(1, 5) + ([r.choice([901, 902, 903])] if r.random() < 0.5 else [])
            L.append(r.choice(['d_search %s %s -' % (p, sq(s)), 'd_greedy %s %s - 0' % (p, sq(s)),
                               'd_weigh %s %s 2 1 1 9 0' % (p, sq(s)), 'd_obs ' + p]))
    L += ['b_obs b', 'b_obs c']
    return L


def b_small(r, big):
    """sizes that leave no or little room"""
    al = alphabet(r, 2, 6)
    size = r.choice([1, 2, len(al) - 1, len(al), len(al) + 1])
    S = sorted([a] for a in al)
    L = ['b_new b 3 %d %s %s %s 0.2' % (size, sqs(S), sq([0] * len(S)), sqs(S))] if r.random() < 0.7 else \
        ['b_new b %d %d %s' % (r.choice([0, 1, 2]), max(1, size), sqs(S) if r.random() < 0 else '0')]
    if L[0].startswith('b_new b 1') or L[0].startswith('b_new b 2'):
        L = ['b_new b 1 %d %s' % (max(1, size), sqs(S))]
    lang = Lang(r, al)
    for k in range(r.randint(20, 40)):
        L.append('b_acc b ' + sq(lang.seq(2, 20)))
        if r.random() < 0.2:
            L.append('b_obs b')
    L.append('b_obs b')
    return L


def b_many(r, big):
    """many symbols, some of them rare, that appear while learning goes on"""
    n = r.choice([10, 20, 35]) if not big else r.choice([50, 80])
    al = list(range(n))
    size = n + r.choice([2, 5, 15, 30])
    start = al[:r.choice([1, n // 2, n])]
    S = [[a] for a in start]
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([r.randint(0, 3) for _ in S]), sqs(S), r.choice([0.2, 0.1]))]
    ws = [rword(r, al, 2, 4) for _ in range(6)]
    for k in range(r.randint(20, 40)):
        m = max(1, min(n, len(start) + k * n // 30))
        s = []
        while len(s) < 12:
            s += r.choice(ws) if r.random() < 0.6 and m == n else [r.choice(al[:m])] * r.choice([1, 1, 2])
        L.append('b_acc b ' + sq(s))
        if r.random() < 0.2:
            L.append('b_obs b')
    L.append('b_obs b')
    return L


def b_phase(r, big):
    """new symbols keep coming while many v-grams compete for little room"""
    n = r.randint(5, 9) if not big else r.randint(12, 20)
    al = list(range(n))
    size = n + r.choice([1, 2, 3, 5])
    S = [[a] for a in al[:2]]
    mp = r.choice([0.2, 0.1])
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([0, 0]), sqs(S), mp)] if r.random() < 0.8 else \
        ['b_new b 1 %d %s' % (size, sqs(S))]
    ws = [rword(r, al[:2], 2, 4) for _ in range(5)]
    every = r.choice([2, 3, 4, 6])
    for k in range(r.randint(30, 60)):
        m = min(n, 2 + k // every)
        s = []
        while len(s) < r.choice([8, 12, 20]):
            s += r.choice(ws)
            if r.random() < 0.15:
                s.append(r.choice(al[:m]))
        if k % every == 0:
            s.insert(r.randint(0, len(s)), al[m - 1])
        L.append('b_acc b ' + sq(s))
        if r.random() < 0.2:
            L.append('b_obs b')
    L.append('b_obs b')
    return L


def b_tight(r, big):
    """a few phrases make up all the data, and there is room for few or none of them"""
    n = r.randint(4, 10)
    al = r.sample(range(-20, 40), n)
    ph = []
    for k in range(r.randint(1, 5)):
        w = r.sample(al, r.randint(3, min(n, 7))) if r.random() < 0.8 else rword(r, al, 3, 7)
        if w not in ph:
            ph.append(w)
    S = sorted([[a] for a in al] + (ph if r.random() < 0.8 else []))
    size = n + r.choice([0, 0, 1, 1, 2, len(ph)])
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([r.choice([0, 1, 5]) for _ in S]), sqs(S), r.choice([0.05, 0.1, 0.03]))]
    wt = [r.choice([1, 1, 3, 20]) for _ in ph]
    for k in range(r.randint(12, 25)):
        s = []
        for w in r.choices(ph, wt, k=r.randint(3, 14)):
            s += w
        if r.random() < 0.1:
            s += rword(r, al, 1, 3)
        L.append('b_acc b ' + sq(s))
        if r.random() < 0.2:
            L.append('b_obs b')
    L.append('b_obs b')
    return L


def b_assoc(r, big):
    """long sequences in which some neighbours belong together, others meet by chance and others avoid each other"""
    scarce = r.random() < 0.5
    n = r.randint(4, 7) if scarce else r.randint(3, 12)
    al = r.sample(range(-20, 40), n)
    S = sorted([a] for a in al)
    if r.random() < 0.3:
        S = sorted(S + [rword(r, al, 2, 2) for _ in range(1)])
    size = n + (r.choice([1, 2, 3]) if scarce else r.choice([1, 3, 6, 12, 40]))
    mp = r.choice([0.02, 0.01, 0.006])
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([0 for _ in S]), sqs(S), mp)]
    ph = [rword(r, al, 2, 4) for _ in range(r.randint(1, 6))] if not scarce or r.random() < 0.3 else \
        [r.sample(al, 2) for _ in range(r.randint(4, 6))]
    wt = [r.choice([1, 2, 5, 20]) for _ in ph] if not scarce else r.choice([[1, 1, 2, 2, 40, 60], [1, 3, 9, 27, 81, 240], [1, 2, 3, 4, 5, 6]])
    ph = (ph * 6)[:6] if scarce else ph
    if scarce and n >= 5 and r.random() < 0.5:      # one symbol with many continuations, or many with the same one, and a steady couple
        x, u, v = al[:3]
        ph = [[x, y] if r.random() < 0.7 else [y, x] for y in al[3:] + [u]] + [[u, v]]
        wt = [r.choice([20, 30]) for _ in ph[:-1]] + [r.choice([10, 15, 20])]
    noise = r.choice([0, 0.1, 0.4, 0.8]) if not scarce else r.choice([0, 0.03, 0.1])
    # symbols that never follow each other
    avoid = {(r.choice(al), r.choice(al)) for _ in range(2)}
    total = 0
    want = r.choice([600, 1200, 2000])
    while total < want:
        s = []
        ln = r.choice([40, 100, 250])
        while len(s) < ln:
            x = [r.choice(al)] if r.random() < noise else r.choices(ph, wt)[0]
            if not (s and r.random() < 0.9 and (s[-1], x[0]) in avoid):
                s += x
        total += len(s)
        L.append('b_acc b ' + sq(s))
    L.append('b_obs b')
    return L


def b_one(r, big):
    """few very long sequences; what belongs together shows late in them"""
    n = r.randint(4, 7)
    al = r.sample(range(-20, 40), n)
    S = sorted([a] for a in al)
    if r.random() < 0.4:
        S = sorted(S + [rword(r, al, 2, 4)])
    mp = r.choice([0.02, 0.01, 0.004])
    L = ['b_new b 3 %d %s %s %s %g' % (n + r.choice([3, 8, 30]), sqs(S), sq([0 for _ in S]), sqs(S), mp)]
    u, v, x, y = (al * 2)[:4]
    for _ in range(r.randint(2, 3)):
        s = []
        ln = r.choice([950, 1300, 1900])
        while len(s) < ln:
            late = len(s) > ln // 2
            s += r.choice([[u, v], [r.choice(al)]]) if not late else r.choice([[x, y], [x, y, u], [r.choice(al[2:])]])
        L.append('b_acc b ' + sq(s))
    L.append('b_obs b')
    return L


def b_crowd(r, big):
    """many different neighbours; some of them belong together, and that shows late"""
    n = r.randint(14, 40)
    al = r.sample(range(-50, 90), n)
    S = sorted([a] for a in al)
    size = n + r.choice([3, 10, 40])
    mp = r.choice([0.002, 0.0015, 0.003])
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([0 for _ in S]), sqs(S), mp)]
    ph = [r.sample(al, 2) for _ in range(r.randint(2, 8))]
    need = 2.4 / mp
    total, late = 0, r.random() < 0.7
    start = r.choice([0.2, 0.5, 0.7]) * need if late else 0
    while total < 1.4 * need:
        s = []
        for _ in range(r.choice([40, 100, 300])):
            s += r.choice(ph) if total >= start and r.random() < 0.6 else [r.choice(al)]
        total += len(s)
        L.append('b_acc b ' + sq(s))
    L.append('b_obs b')
    return L


def b_grams(r, big):
    """long entries that are often neighbours"""
    n = r.randint(3, 8)
    al = r.sample(range(-20, 40), n)
    base = [rword(r, al, 3, r.choice([5, 9, 16])) for _ in range(r.randint(2, 5))]
    S = {(x,) for x in al} | {tuple(w) for w in base}
    if r.random() < 0.4:
        S |= {tuple(w[:r.randint(2, len(w))]) for w in base}
    S = sorted(list(t) for t in S)
    size = n + len(S) - n + r.choice([2, 6, 20])
    mp = r.choice([0.02, 0.01])
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([r.choice([0, 5]) for _ in S]), sqs(S), mp)]
    couples = [r.sample(base, 2) for _ in range(r.randint(1, 3))]
    for _ in range(r.randint(6, 14)):
        s = []
        for _ in range(r.choice([15, 40, 80])):
            c = r.random()
            s += sum(r.choice(couples), []) if c < 0.6 else r.choice(base) if c < 0.8 else [r.choice(al)]
        L.append('b_acc b ' + sq(s))
    L.append('b_obs b')
    return L


def b_new_symbols(r, big):
    """many symbols become known while learning; the room for v-grams shrinks with them"""
    n = r.randint(12, 60)
    al = r.sample(range(-100, 200), n)
    have = al[:r.randint(1, 4)]
    S = sorted([a] for a in have)
    size = n + r.choice([1, 3, 8, 20])
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([0 for _ in S]), sqs(S), r.choice([0.2, 0.1, 0.05, 0.02]))]
    if r.random() < 0.3:
        L = ['b_new b 0 %d 0' % size] if r.random() < 0.5 else ['b_new b 2 %d %s' % (size, sqs(S))]
    known = len(have)
    ph = []
    steady = r.random() < 0.7
    total = 0
    want = r.choice([600, 2500]) if L[0].startswith('b_new b 3') else 2800
    while total < want:
        known = min(n, known + r.choice([5, 20, 60] if steady else [0, 1, 3, 10, 20]))
        ph = ph if steady else []
        while len(ph) < (known if steady else 4):
            ph.append(r.sample(al[:known], 2) if known > 1 else al[:1])
        s = []
        for _ in range(r.choice([10, 30, 100])):
            s += r.choice(ph) if r.random() < (0.95 if steady else 0.7) else [r.choice(al[:known])]
        total += len(s)
        L.append('b_acc b ' + sq(s))
        if r.random() < 0.1:
            L.append('b_obs b')
    L.append('b_obs b')
    return L


def b_low(r, big):
    """rare neighbours and rare entries among very many: small minimum probabilities"""
    al = r.sample(range(-9, 30), r.randint(5, 8))
    u, v, x, y = al[:4]
    common = al[4:] or [x, y]
    multis = r.choice([[], [[u, v]], [[u, v], [x, y]], [[u, v, u], [v, x]]])
    S = sorted([[a] for a in al] + multis)
    mp = r.choice([0.001, 0.0005, 0.0003, 0.0002])
    T = -math.log(0.1) / mp
    L = ['b_new b 3 %d %s %s %s %g' % (len(S) + r.choice([2, 6, 20]), sqs(S), sq([r.choice([0, 1]) for _ in S]), sqs(S), mp)]
    n = 0

    def plain(s):
        return not any(s[i:i + len(m)] == m for m in multis for i in range(len(s)))

    def bulk(limit, single):
        nonlocal n
        s = [r.choice(common) for _ in range(1 if single else r.randint(1, 6))]
        if r.random() < 0.2:
            s = [r.choice(al) for _ in range(1 if single else r.randint(2, 3))]
        k = min(r.choice([1, 2, 10, 300, 1200, 3000]), int((limit - n) // len(s)))
        if k > 0 and plain(s):
            n += k * len(s)
            L.append('b_bulk b %s %d' % (sq(s), k))

    def some(k):
        nonlocal n
        for _ in range(k):
            s = [r.choice(common) for _ in range(r.randint(0, 3))] + r.choice([[u, v], [x, y], [u, v, u], [v, x], [u, v]]) + [r.choice(common) for _ in range(r.randint(0, 3))]
            n += len(s)
            L.append('b_acc b ' + sq(s))
    quiet = r.random() < 0.6          # no neighbours in the first phase
    for phase in range(2):           # one step that expands, and one that reduces if it comes to that
        if phase or not quiet:
            some(r.randint(0, 4))
        for _ in range(40):
            bulk(0.7 * T if phase else 0.99 * T, quiet or phase > 0)
        if phase or not quiet:
            some(r.randint(0, 3))
        L.append('b_obs b')
        while quiet and not phase and n < 1.002 * T + 3:
            L.append('b_acc b 1 %d' % r.choice(common))
            n += 1
        while n < 1.15 * T and (phase or not quiet):
            s = [r.choice(common) for _ in range(200)]
            n += len(s) // (1 + phase)
            L.append('b_acc b ' + sq(s))
        n = int(0.2 * T) + 300 if not quiet else 10   # at most that many were accepted after the step
    L.append('b_obs b')
    return L


def b_patient(r, big):
    """a minimum probability so small that evidence takes very long"""
    al = r.sample(range(-5, 9), r.choice([1, 2, 3]))
    S = sorted([a] for a in al)
    mp = r.choice([0.0001, 0.00005, 0.00001])
    L = ['b_new b 3 %d %s %s %s %g' % (len(al) + 4, sqs(S), sq([0 for _ in S]), sqs(S), mp)]
    for k in range(r.randint(4, 9) if not big else 20):
        w = rword(r, al, 1, 5)
        L.append('b_acc b ' + sq((w * 5000)[:r.randint(3000, 5000)]))
    L.append('b_obs b')
    return L


def b_bulk(r, big):
    """evidence is enough at twenty million entries, whatever the probabilities"""
    al = sorted(r.sample(range(-5, 9), r.choice([1, 2, 3])))
    S = [[a] for a in al]
    mp = r.choice(['1e-9', '4e-9', '2e-8'])
    L = ['b_new b 3 %d %s %s %s %s' % (len(al) + 4, sqs(S), sq([0 for _ in S]), sqs(S), mp)]
    n = 0
    for k in range(r.randint(0, 3)):
        s = [r.choice(al) for _ in range(r.randint(1, 30))]
        n += len(s)
        L.append('b_acc b ' + sq(s))
    last = r.randint(1, 12)
    a = r.randint(0, 20000000 - n - last)
    c = r.choice(al)
    for x, k in ((c, a), (r.choice(al), 20000000 - n - last - a)):
        L.append('b_bulk b 1 %d %d' % (x, k))
        if r.random() < 0.5:
            L.append('b_obs b')
    while last > -4:
        s = [r.choice(al) for _ in range(r.choice([1, 1, 2, 3]))]
        if last > 0 and r.random() < 0.6:
            s = [r.choice(al) for _ in range(last)]      # exactly at the limit
        last -= len(s)
        L.append('b_acc b ' + sq(s))
    L += ['b_obs b', 'b_acc b ' + sq([al[0], al[-1]]), 'b_obs b']
    return L


# ---------------------------------------------------------------- coders

def k_mix(r, big):
    L = ['k_new k', 'k_new j']
    known = {'k': [], 'j': []}
    pool = alphabet(r, 3, 8) + [IMIN, IMAX, 0, -1]
    for k in range(r.randint(10, 20)):
        h = r.choice('kkj')
        s = rword(r, pool, 0, 8 if not big else 60)
        if big:
            s += [r.randint(-10 ** 9, 10 ** 9) for _ in range(20)]
        c = r.random()
        if c < 0.35:
            L.append('k_enc %s %s' % (h, sq(s)))
            for x in s:
                if x not in known[h]:
                    known[h].append(x)
        elif c < 0.6:
            L.append('k_im %s %s' % (h, sq(s)))
        elif c < 0.85:
            n = len(known[h])
            L.append('k_dec %s %s' % (h, sq([r.randrange(n) for _ in range(r.randint(0, 8))] if n else [])))
        else:
            L.append('k_map ' + h)
    L += ['k_map k', 'k_map j']
    kind = 1
    L.append('e_new e 0')
    L.append('e_new f 1')
    for k in range(5):
        L.append('e_enc e %s %s' % (sq(rword(r, pool, 0, 6)), sq(rword(r, [4, 9], 0, 2))))
        L.append('e_enc f %s %s' % (hxs([r.choice(['a', 'b', 'ab', '', 'a ', 'word', 'A']) for _ in range(r.randint(0, 6))]),
                                    sq(rword(r, [4, 9], 0, 2))))
    return L


TXT = ['a', 'b', 'c', 'A', 'B', 'Z', '0', '7', ' ', '  ', ',', '.', '-', '\n', '\t', 'ab', 'abc', 'word', 'The', 'é', '\u2581', '\x01', '"', '\\', '/', '_', '+', '\r', '\x0b', '\x7f', '@', '[', '`', '{', ':', 'y', 'Y']


def text(r, lo, hi, pool=None):
    return ''.join(r.choice(pool or TXT) for _ in range(r.randint(lo, hi)))


def t_mix(r, big):
    L = []
    kinds = ['char', 'word', 'comma']
    hs = []
    for k in range(r.randint(1, 3)):
        kind = r.choice(kinds)
        m = []
        if r.random() < 0.5 and kind != 'comma':
            toks = r.sample(['a', 'b', 'c', '0', 'z', 'q', '9', 'x'] if kind == 'char' else
                            ['a', 'word', 'the', 'ab', 'B', '7.', 'abc'], r.randint(1, 5))
            codes = r.sample([0, 1, 2, 3, 5, 7, 8, 100, -1, -7, 1000000, 4], len(toks))
            m = list(zip(toks, codes))
        h = 't%d' % k
        hs.append((h, kind, [c for _, c in m]))
        L.append('t_new %s %s %d%s' % (h, kind, len(m), ''.join(' %s %d' % (hx(t), c) for t, c in m)))
    pool = TXT + (['é', '\xff'] if r.random() < 0.3 else [])
    first = r.randint(1, 200)
    L.append('t_norm t0 ' + hx(bytes(range(first, first + 48))))
    L.append('t_tr t0 ' + hx(bytes(range(first + 48 if first < 150 else 1, (first + 48 if first < 150 else 1) + 30))))
    for k in range(r.randint(8, 16)):
        h, kind, codes = r.choice(hs)
        c = r.random()
        s = text(r, 0, 12 if not big else 80, pool)
        b = s.encode()
        if r.random() < 0.1:
            b += bytes([r.randint(1, 255) for _ in range(4)])
        if c < 0.4:
            L.append('t_tr %s %s' % (h, hx(b)))
        elif c < 0.55:
            L.append('t_trv %s %s' % (h, hxs([text(r, 0, 6) for _ in range(r.randint(0, 4))])))
        elif c < 0.7:
            L.append('t_dec %s %s' % (h, sq([r.choice(codes + list(range(0, 14)) + [-1, 99999, 101, 1000001]) for _ in range(r.randint(0, 8))])))
        elif c < 0.8:
            L.append('t_decv %s %s' % (h, sqs([[r.randint(0, 8) for _ in range(r.randint(0, 4))] for _ in range(r.randint(0, 3))])))
        elif c < 0.9:
            L.append('t_norm %s %s' % (h, hx(b)))
        else:
            L.append('t_tok %s %s' % (h, hx(b)))
    for h, kind, codes in hs:
        L.append('t_dec %s %s' % (h, sq(sorted(set(codes)) + list(range(0, 16)))))
    return L


def t_round(r, big):
    """what was transformed decodes back"""
    L = ['t_new t %s 0' % r.choice(['char', 'word', 'comma'])]
    seen = 0
    for k in range(r.randint(3, 6)):
        s = text(r, 1, 20)
        L.append('t_tr t ' + hx(s))
        L.append('t_dec t ' + sq(list(range(0, 30))))
    return L


def p_mix(r, big):
    L = []
    for k in range(5):
        L.append('p_seq p ' + sq(rword(r, [0, 1, -1, IMIN, IMAX, 10, 99], 0, 5)))
    return L


def q_dir(r, big):
    L = []
    for k in range(12):
        n = r.choice([1, 2, 3, 4, 4, 4, 6, 10])
        top = r.choice([3, 30, 1000, 100000])
        p = [r.choice([1, 1, 2, 7, top, r.randint(1, top)]) for _ in range(n)]
        if r.random() < 0.3:
            p = [r.choice([1, p[0]]) for _ in p]
        L.append('q_dir q ' + sq(p))
    return L


# ---------------------------------------------------------------- files and pipelines

def model_file(r, syms, multis, size, mp, fit=None, text=None, wt=None, perm=True, codes=None):
    """hand-written model: syms are symbol values, multis are words of symbol values"""
    coder = syms[:]
    code = {v: i for i, v in enumerate(coder)}
    ent = [[code[v]] for v in syms] if codes is None else [[c] for c in codes]
    ent += [[code[v] for v in w] for w in multis]
    ent = [list(t) for t in dict.fromkeys(map(tuple, ent))]
    if perm:
        r.shuffle(ent)
    al = []
    for e in ent:
        w = {'freq': r.choice([0, 0, 1, 2, 7, 40, 1000]), 'vec': e}
        if text:
            w['text'] = ''.join(text[coder[c]] for c in e)
        al.append(w)
    j = {'size': size, 'min_prob': mp, 'coder': coder, 'alphabet': al}
    if fit is not None:
        j['fitted'], j['freqs_computed'] = fit
    if wt is not None:
        j['words_are_tokens'] = wt
    return json.dumps(j)


def start_stream(r, al, h='v', kind=None):
    """a stream, new or loaded from a hand-written file (learns quickly)"""
    kind = kind or r.choice(['new', 'file', 'file', 'file'])
    if kind == 'new':
        return ['v_new %s %d' % (h, r.choice([len(al) + 2, 20, 50]))]
    ms = [w for w in words(r, al, r.choice([0, 2, 5]), 4) if len(w) > 1]
    txt = model_file(r, al, ms, r.choice([len(al) + 1, len(al) + 4, 25]), r.choice([0.2, 0.2, 0.08]))
    return ['f_write m%s %s' % (h, hx(txt)), 'v_load %s m%s' % (h, h)]


def v_mix(r, big):
    """accept, update, parse, observe, save and load in any order"""
    al = alphabet(r, 2, 5)
    L = start_stream(r, al)
    lang = Lang(r, al)
    hs = ['v']
    files = 0
    extra = [x for x in alphabet(r, 1, 3) if x not in al]
    n = r.randint(30, 60) if not big else r.randint(90, 160)
    held = 0
    toks = False
    for k in range(n):
        h = r.choice(hs)
        c = r.random()
        s = lang.seq(0 if r.random() < 0.1 else 2, r.choice([6, 15, 30]))
        if extra and r.random() < 0.15:
            i = r.randint(0, len(s))
            s = s[:i] + [r.choice(extra)] + s[i:]
        if c < 0.5:
            L.append('v_acc %s %s' % (h, sq(s)))
        elif c < 0.62:
            L.append('v_upd ' + h)
        elif c < 0.82:
            if r.random() < 0.2:
                s = s + [r.choice([123456, -9])]
            L.append('v_parse %s %s' % (h, sq(s)))
        elif c < 0.9:
            L.append('v_obs ' + h)
        elif c < 0.93 and held < 3:
            held += 1
            L.append('v_hold %s p%d' % (h, held))
        elif c < 0.96 and held:
            L.append('d_search p%d %s %s' % (r.randint(1, held), sq([r.randint(0, 6)] * 2), r.choice(['0', '1 0', '2 0 3'])))
        elif len(hs) < 3:
            f = 'f%d' % files
            files += 1
            L.append('v_save %s %s -' % (h, f))
            L.append('f_read ' + f)
            g = 'w%d' % files
            L.append('v_load %s %s' % (g, f))
            hs.append(g)
            for q in range(3):
                s = lang.seq(1, 10)
                L.append('v_parse %s %s' % (h, sq(s)))
                L.append('v_parse %s %s' % (g, sq(s)))
    for h in hs:
        L.append('v_obs ' + h)
    return L


def v_fresh(r, big):
    """a new stream that learns with the default probabilities, with little room"""
    al = alphabet(r, 2, 4)
    L = ['v_new v %d' % (len(al) + r.choice([1, 2, 3, 4, 5]))]
    ph = [rword(r, al, 2, 4) for _ in range(r.randint(2, 6))]
    total = 0
    while total < 1200 * r.choice([3, 4]):
        s = []
        ln = r.randint(100, 250)
        while len(s) < ln:
            s += r.choice(ph) if r.random() < 0.9 else [r.choice(al)]
        total += len(s) // (1 if total < 1300 else 2) + 1
        L.append('v_acc v ' + sq(s))
        if r.random() < 0.1:
            L += ['v_upd v', 'v_obs v']
    L += ['v_upd v', 'v_obs v', 'v_save v f -', 'f_read f']
    return L


def v_early(r, big):
    """parsing and observing before there is any data or any update"""
    al = alphabet(r, 1, 4)
    L = ['v_new v %d' % r.choice([5, 10, 100])]
    for k in range(r.randint(8, 16)):
        c = r.random()
        s = rword(r, al, 0, 5)
        if c < 0.35:
            L.append('v_parse v ' + sq(s))
        elif c < 0.6:
            L.append('v_acc v ' + sq(s))
        elif c < 0.75:
            L.append('v_upd v')
        else:
            L.append('v_obs v')
    L += ['v_save v f -', 'f_read f', 'v_load w f', 'v_obs w', 'v_parse w ' + sq(rword(r, al, 1, 4)), 'v_acc w ' + sq(rword(r, al, 1, 4)),
          'v_upd w', 'v_obs w']
    return L


def f_hand(r, big):
    """hand-written files in any order of entries, loaded, used, saved and loaded again"""
    al = alphabet(r, 1, 6)
    ms = [w for w in words(r, al, r.choice([0, 3, 8, 15]), 5) if len(w) > 1]
    lang = Lang(r, al)
    fitk = r.random() < 0.5
    fit = r.choice([(True, True), (True, False), (False, False)]) if fitk else None
    txt = model_file(r, al, ms, r.choice([len(al) + 1, len(al) + len(ms), 40]), r.choice([0.2, 0.01, 0.002, 0.000123456]), fit)
    ld = 'i_load' if fitk else 'v_load'
    L = ['f_write m ' + hx(txt), '%s v m' % ld]
    for k in range(r.randint(2, 6)):
        L.append('v_parse v ' + sq(text_over(r, ms, al, 0, 20, 0.05)))
    L.append('v_obs v')
    if not (fitk and fit[0]) or r.random() < 0.5:
        if r.random() < 0.4 and not fitk:
            for k in range(r.randint(1, 10)):
                L.append('v_acc v ' + sq(lang.seq(1, 15)))
            if r.random() < 0.5:
                L.append('v_upd v')
    L += ['v_save v f -', 'f_read f', 'v_obs v', '%s w f' % ld]
    for k in range(r.randint(2, 5)):
        s = text_over(r, ms, al, 0, 15, 0.05)
        L.append('v_parse v ' + sq(s))
        L.append('v_parse w ' + sq(s))
    L += ['v_save w g -', 'f_read g', 'v_obs w', 'v_obs v']
    if fitk:
        seqs = [lang.seq(0, 12) for _ in range(r.randint(1, 5))]
        L += ['i_fit w %d -1 %s' % (r.randint(0, 99), sqs(seqs)), 'i_tr w -1 ' + sqs(seqs), 'v_save w g2 -', 'f_read g2', 'v_obs v']
    return L


def i_mix(r, big):
    """fits, complete and interrupted at any point"""
    al = alphabet(r, 1, 4)
    lang = Lang(r, al)
    m = r.choice([0, 1, 2, 3, 5, 8]) if not big else r.choice([12, 25])
    seqs = [lang.seq(0 if r.random() < 0.1 else 1, r.choice([5, 12, 30])) for _ in range(m)]
    if r.random() < 0.1:
        seqs = [[] for _ in range(m)]
    iters = r.choice([0, 1, 1, 2, 3])
    L = ['i_new i %d %d' % (r.choice([len(al) + 2, 15, 40]), iters)]
    total = iters * m + m

    def use():
        out = []
        q = [lang.seq(0, 8) + ([999] if r.random() < 0.2 else []) for _ in range(r.randint(0, 4))]
        stop = r.choice([-1, -1, 0, 1, 2, len(q), len(q) + 1, 2 * len(q)])
        c = r.random()
        if c < 0.35:
            out.append('i_tr i %d %s' % (stop, sqs(q)))
        elif c < 0.6:
            out.append('i_trs i %d %s' % (stop, sqs(q)))
        elif c < 0.7:
            out.append('v_obs i')
        elif c < 0.8:
            out.append('v_parse i ' + sq(lang.seq(0, 6)))
        elif c < 0.86:
            out.append('v_acc i ' + sq(lang.seq(0, 6) + ([555] if r.random() < 0.2 else [])))
        elif c < 0.9:
            out.append('v_upd i')
        else:
            out += ['v_save i f -', 'f_read f', 'i_load j f', 'v_obs j', 'i_tr j -1 ' + sqs(q)]
        return out
    if r.random() < 0.3:
        L += use()
    for k in range(r.randint(1, 3)):
        if total > 0 and r.random() < 0.5:
            stop = r.choice([1, max(1, iters * m), iters * m + 1, total, r.randint(1, total), m + 1 if m else 1])
        else:
            stop = -1
        if k and r.random() < 0.3:
            seqs = seqs[:] + [lang.seq(1, 6) + ([444] if r.random() < 0.5 else [])]
            m = len(seqs)
            total = iters * m + m
        L.append('i_fit i %d %d %s' % (r.randint(0, 10 ** 6), stop, sqs(seqs)))
        for q in range(r.randint(1, 3)):
            L += use()
    L.append('i_fit i %d -1 %s' % (r.randint(0, 10 ** 6), sqs(seqs)))
    L += use()
    L += ['v_save i f -', 'f_read f', 'i_load j f', 'v_obs j', 'i_fit j 1 -1 ' + sqs(seqs), 'i_tr j -1 ' + sqs(seqs), 'v_obs i']
    return L


def i_learn(r, big):
    """a fit long enough for learning steps"""
    al = alphabet(r, 2, 4)
    lang = Lang(r, al)
    seqs = [lang.seq(60, 120) for _ in range(r.randint(6, 10))]
    iters = 4 if not big else 8
    L = ['i_new i %d %d' % (r.choice([len(al) + 4, 20]), iters)]
    m = len(seqs)
    if r.random() < 0.4:
        L.append('i_fit i %d %d %s' % (r.randint(0, 999), r.randint(1, iters * m + m), sqs(seqs)))
        L.append('v_obs i')
    L.append('i_fit i %d -1 %s' % (r.randint(0, 10 ** 6), sqs(seqs)))
    q = [lang.seq(0, 12) for _ in range(3)]
    L += ['v_obs i', 'i_tr i -1 ' + sqs(q), 'i_trs i -1 ' + sqs(q), 'v_save i f -', 'f_read f', 'i_load j f', 'i_tr j -1 ' + sqs(q),
          'i_fit i 1 -1 ' + sqs(seqs[:2]), 'v_obs i']
    return L


def make_line(h, f, txt):
    j = json.loads(txt)
    return 'i_make %s %s %d %.17g %d %d %s %s %s' % (h, f, j['size'], j['min_prob'], j['fitted'], j['freqs_computed'], sq(j['coder']),
                                                     sqs([a['vec'] for a in j['alphabet']]), sq([a['freq'] for a in j['alphabet']]))


def i_counts(r, big):
    """fitted in a file without frequencies: only counts, also with symbols not met before"""
    al = alphabet(r, 1, 4)
    lang = Lang(r, al)
    ms = [w for w in words(r, al, r.choice([0, 2, 6]), 5) if len(w) > 1]
    txt = model_file(r, al, ms, 30, 0.01, (True, False))
    seqs = [lang.seq(0, 15) + ([777, 778][:r.randint(0, 2)]) for _ in range(r.randint(1, 6))]
    m = len(seqs)
    L = ['f_write m ' + hx(txt), 'i_load i m']
    if r.random() < 0.5:
        L = L[:1] + [make_line('i', 'm', txt)]
        if r.random() < 0.7:
            L += ['i_fit i 0 %d %s' % (r.randint(1, m), sqs(seqs)), 'v_obs i', 'v_parse i ' + sq(seqs[0]), 'v_save i e -', 'f_read e', 'i_load z e', 'v_obs z']
    if r.random() < 0.5:
        L += ['i_tr i -1 ' + sqs(seqs)]
    L += ['i_fit i 0 -1 ' + sqs(seqs), 'v_obs i', 'i_tr i -1 ' + sqs(seqs), 'v_save i f -', 'f_read f', 'i_load j f',
          'i_fit j 0 -1 ' + sqs(seqs[:1]), 'v_obs j', 'i_trs j -1 ' + sqs(seqs)]
    return L


TW = ['_', 'a\tb', 'the ', 'cat ', 'sat', ' on', ' a ', 'mat', 'ab', 'abc', 'a', 'b', ' ', 'x1', 'Hi', '9', '.', ',', '-']


def phrase(r, lo, hi, pool):
    return ''.join(r.choice(pool) for _ in range(r.randint(lo, hi)))


def text_file(r, words_, fitted):
    if words_:
        toks = r.sample(['the', 'cat', 'sat', 'on', 'a', 'mat', 'b.', 'Hi'], r.randint(2, 6))
    else:
        toks = r.sample(list('thecasonm') + ['b', 'x', '1', '9'], r.randint(3, 9))
        toks = list(dict.fromkeys(toks))
    vals = r.sample(range(0, 30), len(toks))
    t = dict(zip(vals, toks))
    ms = [w for w in words(r, vals, r.choice([0, 3, 6]), 4) if len(w) > 1]
    txt = model_file(r, vals, ms, r.choice([len(vals) + 2, 40]), r.choice([0.2, 0.2, 0.05]),
                     r.choice([(True, True), (True, False), (False, False)]) if fitted else None, t,
                     None if fitted or (not words_ and r.random() < 0.5) else words_)
    if r.random() < 0.4:                              # tokens of all codes, also of those that are no entries
        j = json.loads(txt)
        hide = {0} if r.random() < 0.5 else set(r.sample(range(len(vals)), r.randint(1, 2)))
        j['alphabet'] = [w for w in j['alphabet'] if len(w['vec']) > 1 or w['vec'][0] not in hide]
        j['tokens'] = [t[v] if i in hide or r.random() < 0.7 else '' for i, v in enumerate(j['coder'])]
        txt = json.dumps(j)
    return txt


def x_mix(r, big):
    """text streams"""
    w = r.random() < 0.4
    L = []
    hs = ['x']
    nf = 0
    c = r.random()
    pool = r.sample(TW, r.randint(4, 12))
    if c < 0.4:
        L.append('x_new x %d 0 %d' % (r.choice([10, 30]), w))
    elif c < 0.75:
        L += ['f_write m ' + hx(text_file(r, w, False)), 'x_load x m']
        pool = ['the ', 'cat ', 'sat ', ' on ', 'a ', 'mat ', 't', 'h', 'e', 'c', 'o', 'm', '1', 'x']
    else:
        kind = r.choice(['char', 'word'])
        al = [0, 1, 2]
        L += start_stream(r, al, 'v', r.choice(['new', 'file']))
        names = ['a', 'b', 'c'] if kind == 'char' else ['the', 'cat', 'sat']
        L += ['t_new t %s 3 %s 0 %s 1 %s 2' % (kind, hx(names[0]), hx(names[1]), hx(names[2])),
              'x_wrap x v t %d %d' % (0, kind == 'word')]
        pool = names + [' ', 'z', '1 ', 'the ', 'cat ']
    if r.random() < 0.2:
        L.append('x_new z %d 1 1' % 10)
    if r.random() < 0.1:
        L.append('x_new z %d 1 0' % 10)
    if r.random() < 0.15:
        L += ['v_new wv 10', 't_new wt word 0', 'x_wrap wx wv wt %d %d' % r.choice([(1, 1), (1, 1), (1, 0), (0, 1)])]
    for k in range(r.randint(12, 30) if not big else r.randint(40, 70)):
        h = r.choice(hs)
        c = r.random()
        s = phrase(r, 0, r.choice([3, 8, 15]), pool)
        if c < 0.5:
            L.append('x_acc %s %s' % (h, hx(s)))
        elif c < 0.62:
            L.append('x_upd ' + h)
        elif c < 0.82:
            L.append('x_parse %s %s' % (h, hx(s)))
        elif c < 0.92:
            L.append('x_obs ' + h)
        elif len(hs) < 3:
            f = 'f%d' % nf
            nf += 1
            g = 'g%d' % nf
            L += ['x_save %s %s' % (h, f), 'f_read ' + f, 'x_load %s %s' % (g, f)]
            hs.append(g)
            for q in range(2):
                s = phrase(r, 1, 8, pool)
                L += ['x_parse %s %s' % (h, hx(s)), 'x_parse %s %s' % (g, hx(s))]
    for h in hs:
        L += ['x_obs ' + h]
    return L


def y_mix(r, big):
    """fitted text models"""
    kind = r.choice(['char', 'char', 'word', 'comma'])
    pool = r.sample(TW, r.randint(4, 12))
    m = r.randint(0, 6)
    texts = [phrase(r, 0, r.choice([3, 10]), pool) for _ in range(m)]
    L = []
    if r.random() < 0.25:
        kind = 'char'
        L += ['f_write m ' + hx(text_file(r, False, True)), 'y_load y m']
    else:
        L.append('y_new y %d %d %s' % (r.choice([10, 30]), r.choice([0, 1, 1, 2, 3]), kind))
    if r.random() < 0.3:
        L += ['y_obs y', 'y_tr y ' + hxs(texts[:2])]
    L.append('y_fit y %d %s' % (r.randint(0, 999), hxs(texts)))
    for k in range(r.randint(1, 4)):
        q = [phrase(r, 0, 6, pool + ['Q', '5']) for _ in range(r.randint(0, 4))]
        L.append('y_tr y ' + hxs(q))
        if r.random() < 0.3:
            L.append('y_obs y')
        if r.random() < 0.2:
            L.append('y_fit y %d %s' % (r.randint(0, 999), hxs(texts + q)))
    if kind == 'char':
        q = [phrase(r, 0, 6, pool) for _ in range(3)]
        L += ['y_save y f', 'f_read f', 'y_load z f', 'y_tr y ' + hxs(q), 'y_tr z ' + hxs(q), 'y_obs z', 'y_save z g', 'f_read g',
              'y_fit z 1 ' + hxs(q), 'y_tr z ' + hxs(q), 'y_obs y']
    else:
        L += ['y_save y f', 'f_read f', 'y_obs y']
    return L


def y_part(r, big):
    """text models over a given fitted model and a given tokenizer; the alphabet may lack symbols that the coder has"""
    kind = r.choice(['char', 'char', 'word'])
    toks = r.sample(list('abcdefgh') if kind == 'char' else ['the', 'cat', 'sat', 'on', 'mat', 'Hi', 'a1'], r.randint(3, 6))
    vals = r.sample(range(0, 25), len(toks))
    n = len(vals)
    have = r.sample(range(n), r.randint(0, n)) if r.random() < 0.8 else list(range(n))
    ms = [w for w in words(r, vals, r.choice([0, 2, 5]), 4) if len(w) > 1]
    txt = model_file(r, vals, ms, r.choice([n + 2, 30]), r.choice([0.2, 0.05]), r.choice([(True, True), (True, False)]), codes=have)
    L = ['f_write m ' + hx(txt), 'i_load i m',
         't_new t %s %d%s' % (kind, n, ''.join(' %s %d' % (hx(a), v) for a, v in zip(toks, vals))), 'y_wrap y i t']
    sep = '' if kind == 'char' else ' '

    def one():
        return sep.join(r.choice(toks) if r.random() < 0.95 else 'Z' for _ in range(r.randint(0, 7)))
    for k in range(r.randint(2, 6)):
        c = r.random()
        if c < 0.6:
            L.append('y_tr y ' + hxs([one() for _ in range(r.randint(1, 4))]))
        elif c < 0.75:
            L.append('y_obs y')
        elif c < 0.85:
            L.append('i_tr i -1 ' + sqs([[r.choice(vals) for _ in range(r.randint(0, 4))] for _ in range(2)]))
        elif c < 0.95 and kind == 'char':
            L += ['y_save y f', 'f_read f', 'y_load z f', 'y_tr z ' + hxs([one()])]
        else:
            L.append('y_fit y %d %s' % (r.randint(0, 99), hxs([one() for _ in range(r.randint(0, 3))])))
    return L + ['y_obs y', 'y_tr y ' + hxs([one(), one()]), 'v_obs i']


def y_learn(r, big):
    kind = r.choice(['char', 'word'])
    pool = TW[:8] if kind == 'char' else [w.strip() + ' ' for w in TW[:8]]
    texts = [phrase(r, 60, 80, pool) for _ in range(5)]
    L = ['y_new y 40 4 ' + kind, 'y_fit y 7 ' + hxs(texts)]
    q = [phrase(r, 1, 8, pool) for _ in range(3)]
    L += ['y_obs y', 'y_tr y ' + hxs(q)]
    if kind == 'char':
        L += ['y_save y f', 'f_read f', 'y_load z f', 'y_tr z ' + hxs(q), 'y_obs z']
    return L


# ---------------------------------------------------------------- more entries than a byte can number

def wide(r, n):
    return r.sample(range(n), n) if r.random() < 0.5 else r.sample(range(-40000, 80000), n)


def d_wide(r, big):
    al = wide(r, r.randint(260, 330))
    S = [[a] for a in al]
    S += [list(t) for t in {tuple(rword(r, al, 2, 4)) for _ in range(r.randint(0, 120))}]
    r.shuffle(S)
    drop = S[:r.randint(0, 20)]
    S = S[len(drop):]
    L = ['d_new a 0 ' + sqs(S)]
    n = len(S)
    for k in range(10):
        s = text_over(r, S + drop, al, 3, 40, 0.05)
        c = r.random()
        if c < 0.3:
            L.append('d_search a %s %s' % (sq(s), ex(None if r.random() < 0.5 else {r.randint(0, n) for _ in range(3)})))
        elif c < 0.6:
            L.append('d_greedy a %s - 0' % sq(s))
        else:
            w = [r.randint(0, 9) for _ in range(r.choice([n, n - 20]))]
            L.append('d_weigh a %s %s %d 0' % (sq(s), sq(w), sum(w)))
    L += ['d_copy b a', 'd_obs b', 's_new s 1 0.002 %s %s' % (sqs(S), sq([r.randint(0, 5) for _ in S]))]
    for k in range(4):
        L.append('s_parse s %s 0' % sq(text_over(r, S, al, 20, 60, 0.02)))
    return L


def d_app(r, big):
    """many symbols that a dictionary of many entries lacks, also under entries far behind; found again later"""
    n = r.randint(20, 200)
    al = wide(r, n)
    S = [list(t) for t in {tuple(rword(r, al, 2, r.choice([2, 3, 5]))) for _ in range(r.choice([n // 2, n, 2 * n]))}]
    S += [[x] for x in al if r.random() < 0.2]
    L = ['d_new a 0 ' + sqs(S)]
    order = list(al)
    r.shuffle(order)
    while order:
        k = r.randint(1, 30)
        part, order = order[:k], order[k:]
        c = r.random()
        if c < 0.5:
            L.append('d_greedy a %s - 0' % sq(part))
        elif c < 0.8:
            w = [r.randint(0, 9) for _ in range(len(S) + r.randint(0, 40))]
            L.append('d_weigh a %s %s %d 0' % (sq(part), sq(w), sum(w)))
        else:
            L.append('d_search a %s -' % sq(part))
        for _ in range(2):
            s = text_over(r, S, al, 1, 12, 0)
            L.append('d_search a %s %s' % (sq(s), r.choice(['-', ex(exclusions(r, S, s))])))
    L += ['d_copy b a', 'd_obs b']
    for h in 'ab':
        s = text_over(r, S, al, 40, 60, 0.05)
        w = [r.choice([0, 1, 9, 100]) for _ in range(len(S) + r.randint(0, n))]
        L.append('d_weigh %s %s %s %d 0' % (h, sq(s), sq(w), sum(w)))
        L.append('d_greedy %s %s %s 0' % (h, sq(s), ex({r.randint(0, len(S) + n) for _ in range(r.randint(0, 60))})))
    return L


def d_deep(r, big):
    """entries that are prefixes of each other, many deep; many of them excluded at once"""
    x, y = r.sample(range(-3, 9), 2)
    n = r.choice([12, 25, 60])
    stem = [r.choice([x, x, x, y]) for _ in range(n)]
    S = {tuple(stem[:k]) for k in range(1, n + 1) if r.random() < 0.85}
    for _ in range(r.randint(0, 20)):
        k = r.randint(0, n - 1)
        S.add(tuple(stem[:k] + rword(r, [x, y], 1, 3)))
    S = [list(t) for t in S]
    d = sorted(S)
    L = ['d_new a 0 ' + sqs(S)]
    for k in range(12):
        s = stem[:r.randint(1, n)] + rword(r, [x, y], 1, 4)
        pre = [i for i, w in enumerate(d) if s[:len(w)] == w]
        e = set(pre[r.randint(0, len(pre)):]) | {i for i in pre if r.random() < 0.3}
        e |= {r.randint(0, len(d) - 1) for _ in range(r.choice([0, 0, 5, 30]))}
        L.append('d_search a %s %s' % (sq(s), ex(e)))
        if k % 4 == 0:
            L.append('d_greedy a %s %s 0' % (sq(s), ex(e)))
        if k % 4 == 1:
            w = [r.choice([0, 1, 9, 100, 5000]) for _ in range(r.choice([len(S), len(S) // 2]))]
            L.append('d_weigh a %s %s %d 0' % (sq(s + stem), sq(w), sum(w)))
    L.append('d_obs a')
    return L


def d_big(r, big):
    """some thousand entries"""
    n = r.choice([600, 1500, 2300])
    lo = r.choice([0, -700])
    S = {(lo + k,) for k in range(n)}
    hot = [lo + r.randint(0, n - 1) for _ in range(12)]
    for _ in range(r.randint(30, 120)):
        S.add(tuple(rword(r, hot, 2, 4)) if r.random() < 0.5 else (r.choice(hot), lo + r.randint(0, n - 1)))
    S = [list(t) for t in sorted(S)]
    w = [r.choice([0, 1, 5, 90]) for _ in S]
    L = ['d_new a 0 ' + sqs(S)]
    hotS = [t for t in S if len(t) > 1]
    for _ in range(2):
        s = text_over(r, hotS, hot, 15, 30, 0)
        L.append('d_weigh a %s %s %d 0' % (sq(s), sq(w), sum(w)))
    L.append('d_greedy a %s - 0' % sq(text_over(r, hotS, hot, 15, 30, 0)))
    s = text_over(r, hotS, hot, 4, 5, 0)
    L.append('d_search a %s %s' % (sq(s), ex(exclusions(r, S, s))))
    L += ['s_new s 1 0.002 %s %s' % (sqs(S), sq(w)), 's_parse s %s 0' % sq(text_over(r, hotS, hot, 20, 30, 0))]
    return L


def d_huge(r, big):
    """more entries than fit into sixteen bits"""
    n = r.choice([33000, 40000, 66000])
    lo = r.choice([0, -500, 1000000])
    S = [[lo + k * 3] for k in range(n)]
    for k in range(r.randint(0, 3)):
        S.append([lo + 3 * r.randint(n - 9, n - 1), lo + 3 * r.randint(0, 9)])
    S = [list(x) for x in sorted({tuple(x) for x in S})]

    def txt(k):
        return [r.choice([r.randint(0, 9), r.randint(n - 9, n - 1), r.randint(0, n - 1)]) * 3 + lo + (r.random() < 0.1) for _ in range(k)]
    L = ['d_new a 0 ' + sqs(S), 'd_weigh a %s %s 3 0' % (sq(txt(3)), sq([1, 1, 1])), 'd_greedy a %s - 0' % sq(txt(3)),
         'd_search a %s -' % sq(txt(2))]
    L += ['s_new s 1 0.002 %s 0' % sqs(S), 's_parse s %s 0' % sq(txt(3)), 's_parse s %s 0' % sq(txt(3))]
    return L


def b_wide(r, big):
    n = r.randint(260, 300)
    al = wide(r, n)
    S = sorted([a] for a in al)
    ph = [r.sample(al, r.randint(2, 4)) for _ in range(r.randint(3, 10))]
    # couples whose numbers agree in the last byte or differ by 256
    d = [x[0] for x in S]
    for k in range(3):
        i = r.randint(0, n - 257)
        ph += [[d[i], d[i + 256]], [d[i + 256], d[i]]][:r.randint(1, 2)]
        j = r.randint(256, n - 1)
        ph += [[d[j], d[r.randint(0, 20)]]]
    size = n + r.choice([2, 5, 20, 50])
    L = ['b_new b 3 %d %s %s %s %g' % (size, sqs(S), sq([r.choice([0, 0, 2]) for _ in S]), sqs(S), r.choice([0.1, 0.05]))]
    for k in range(r.randint(12, 20)):
        s = []
        while len(s) < 30:
            s += r.choice(ph) if r.random() < 0.85 else [r.choice(al)]
        L.append('b_acc b ' + sq(s))
    L.append('b_obs b')
    return L


def k_wide(r, big):
    n = r.choice([300, 300, 550, 1100])
    vals = wide(r, n)
    L = ['k_new k', 'k_enc k ' + sq(vals[:n - 100]), 'k_enc k ' + sq(vals[n // 2:]), 'k_im k ' + sq(r.sample(vals, 60) + [99999]),
         'k_dec k ' + sq([r.randrange(n) for _ in range(60)] + [255, 256, 257, n - 1, 0]), 'k_enc k ' + sq(r.sample(vals, 60)), 'k_map k']
    names = ['w%d' % i for i in range(280)]
    L += ['t_new t word 0', 't_tr t ' + hx(' '.join(names[:150])), 't_tr t ' + hx(' '.join(names[100:])),
          't_dec t ' + sq(list(range(250, 282)) + [0, 1, 24]), 't_tr t ' + hx(' '.join(r.sample(names, 20)))]
    return L


def v_many(r, big):
    """many symbols become known after the last update of the dictionary; parsed, reported, saved and updated"""
    n = r.choice([15, 40, 120])
    al = r.sample(range(-500, 900), n)
    first = r.randint(0, 3)
    if r.random() < 0.5:
        L = start_stream(r, al[:max(1, first)])
    else:
        L = ['v_new v %d' % r.choice([n + 5, n // 2 + 1, 3 * n])]
    if first:
        L += ['v_acc v ' + sq(al[:first] * 3), 'v_upd v']
    known = first
    while known < n:
        k = min(n - known, r.choice([1, 5, 12, 40, 100]))
        s = al[known:known + k]
        known += k
        L.append('v_acc v ' + sq(s * r.randint(1, 2)))
        c = r.random()
        if c < 0.7:
            L.append('v_parse v ' + sq(r.sample(al[:known], r.randint(1, known)) + [777777]))
        L.append('v_obs v')
        if c < 0.3:
            L.append('v_upd v')
        elif c < 0.5:
            L += ['v_save v f -', 'f_read f', 'v_load w f', 'v_parse w ' + sq(al[:known]), 'v_obs w']
    L += ['v_parse v ' + sq(al), 'v_obs v', 'v_save v g -', 'f_read g', 'v_load u g', 'v_parse u ' + sq(al), 'v_upd v', 'v_obs v',
          'v_parse v ' + sq(al)]
    return L


def v_wide(r, big):
    al = wide(r, 280)
    lang = Lang(r, al[:4] + al[-4:] + al[254:258], 6)
    L = ['v_new v %d' % r.choice([290, 400])]
    if r.random() < 0.6:
        L = ['f_write m ' + hx(model_file(r, al[:270], [w for w in words(r, al[:270], 10, 3) if len(w) > 1], r.choice([285, 400]), 0.1)), 'v_load v m']
    L += ['v_acc v ' + sq(al), 'v_upd v', 'v_obs v']
    for k in range(12):
        s = lang.seq(10, 30) + [r.choice(al)]
        L.append('v_acc v ' + sq(s))
        if r.random() < 0.3:
            L += ['v_upd v', 'v_parse v ' + sq(lang.seq(5, 10) + [77777, r.choice(al)])]
    L += ['v_upd v', 'v_save v f -', 'f_read f', 'v_load w f', 'v_parse v ' + sq(al[200:]), 'v_parse w ' + sq(al[200:]), 'v_obs w']
    return L


# ---------------------------------------------------------------- long inputs

LONG = [129, 200, 257, 300, 513, 700, 1025]


def cut(n, s):
    return (s * (n // max(1, len(s)) + 1))[:n]


def k_long(r, big):
    """long sequences and many repetitions of few values"""
    vals = r.sample([0, 1, -1, 5, 70000, 2147483647, -2147483648, 65536, 255, 256], r.randint(2, 6))
    new = [v for v in range(300, 304)]
    n = r.choice(LONG)
    s = [r.choice(vals) for _ in range(n)]
    L = ['k_new k', 'k_enc k ' + sq(s), 'k_im k ' + sq([r.choice(vals + new[:2]) for _ in range(r.choice(LONG))] + new + vals[:1]),
         'k_dec k ' + sq([r.randrange(len(set(s))) for _ in range(r.choice(LONG))]), 'k_enc k ' + sq(s + new + s[:3]), 'k_map k',
         'e_new e x', 'e_enc e ' + sq(s[:100])]
    return L[:-2]


def t_long(r, big):
    """long texts, long words, many texts at once"""
    kind = r.choice(['char', 'word', 'word', 'comma'])
    L = ['t_new t %s 0' % kind]
    sep = ',' if kind == 'comma' else ' '
    ws = [''.join(r.choice('abXY01.') for _ in range(r.choice([1, 2, 3, 5, 15, 16, 31, 32, 33, 64, 130, 256, 257]))) for _ in range(8)]
    one = sep.join(ws)
    L += ['t_tr t ' + hx(one)]
    long = sep.join(r.choice(ws[:5]) for _ in range(r.choice([60, 140, 260])))
    n = r.choice([1024, 1500, 2100])
    L += ['t_tr t ' + hx(long[:n]), 't_norm t ' + hx(long[:n]), 't_tok t ' + hx(long[-n:]),
          't_dec t ' + sq([r.randrange(9) for _ in range(r.choice([40, 130, 260]))]),
          't_trv t ' + hxs([r.choice(ws[:4]) + sep + r.choice(ws[:3]) for _ in range(r.choice([66, 130]))]),
          't_decv t ' + sqs([[r.randrange(6) for _ in range(r.randint(0, 3))] for _ in range(r.choice([66, 130]))])]
    return L


def v_long(r, big):
    """long sequences accepted and parsed by a stream"""
    al = alphabet(r, 2, 4)
    L = start_stream(r, al)
    lang = Lang(r, al)
    for k in range(r.randint(3, 6)):
        L.append('v_acc v ' + sq(lang.seq(*[r.choice(LONG)] * 2) if r.random() < 0.6 else lang.seq(5, 20)))
        if r.random() < 0.6:
            L.append('v_upd v')
    L += ['v_upd v', 'v_obs v']
    for k in range(3):
        n = r.choice(LONG)
        s = lang.seq(n, n)
        for q in range(r.randint(0, 3)):
            s[r.randrange(n)] = 123456 + q
        L.append('v_parse v ' + sq(s))
    L += ['v_save v f -', 'v_load w f', 'v_parse w ' + sq(s), 'v_acc w ' + sq(s[:130]), 'v_parse w ' + sq(s[:70]), 'v_obs w']
    return L


def i_long(r, big):
    """many or long sequences fitted and transformed"""
    al = alphabet(r, 2, 4)
    lang = Lang(r, al)
    many = r.random() < 0.5
    if many:
        seqs = [lang.seq(0, 4) for _ in range(r.choice([70, 129, 140, 260]))]
    else:
        seqs = [lang.seq(n, n) for n in r.sample(LONG[:5], 2)] + [lang.seq(1, 5)]
    if r.random() < 0.5:
        ms = [w for w in words(r, al, r.choice([0, 2, 6]), 5) if len(w) > 1]
        txt = model_file(r, al, ms, 30, 0.01, r.choice([(True, False), (True, True)]))
        L = ['f_write m ' + hx(txt), make_line('i', 'm', txt)]       # a loaded model cannot be interrupted
    else:
        L = ['i_new i %d %d' % (r.choice([len(al) + 3, 30]), r.choice([0, 1]) if many else 1)]
    L += ['i_fit i %d -1 %s' % (r.randint(0, 10 ** 6), sqs(seqs)), 'v_obs i',
          '%s i %d %s' % (r.choice(['i_tr', 'i_trs']), r.choice([-1, -1, len(seqs) - 1, 65]), sqs(seqs)),
          '%s i -1 %s' % (r.choice(['i_tr', 'i_trs']), sqs([s + [999] * (k % 2) for k, s in enumerate(seqs[:140])])),
          'v_parse i ' + sq(lang.seq(300, 600)), 'v_save i f -', 'f_read f', 'i_load j f', 'i_trs j -1 ' + sqs(seqs[:70])]
    return L


def x_long(r, big):
    """long texts, long words"""
    w = r.random() < 0.6
    pool = ([''.join(r.choice('abc') for _ in range(r.choice([1, 2, 3, 16, 33, 70, 260]))) + ' ' for _ in range(5)]
            if w else ['a', 'b', 'ab', 'abc', ' ', 'c1'])
    L = ['x_new x %d 0 %d' % (r.choice([10, 30]), w)]
    if r.random() < 0.5:
        L = ['f_write m ' + hx(text_file(r, w, False)), 'x_load x m']
    for k in range(r.randint(3, 6)):
        L.append('x_acc x ' + hx(phrase(r, 10, r.choice([40, 150, 300]), pool)))
        if r.random() < 0.5:
            L.append('x_upd x')
    L += ['x_upd x', 'x_obs x', 'x_parse x ' + hx(phrase(r, 60, 200, pool)), 'x_parse x ' + hx(phrase(r, 150, 300, pool + ['Q ']))]
    L += ['x_save x f', 'f_read f', 'x_load z f', 'x_parse z ' + hx(phrase(r, 50, 140, pool)), 'x_obs z']
    return L


def x_book(r, big):
    """saved texts with long words and long v-grams of words or characters"""
    w = r.random() < 0.5
    n = r.randint(3, 5)
    if w:
        toks = list(dict.fromkeys(''.join(r.choice('abcde') for _ in range(r.choice([1, 3, 20, 90, 210]))) for _ in range(n)))
    else:
        toks = r.sample('abcdXY.,', n)
    vals = r.sample(range(0, 30), len(toks))
    t = dict(zip(vals, toks))
    ms = []
    for k in range(r.randint(1, 3)):
        ms.append([r.choice(vals) for _ in range(r.choice([2, 5, 9, 31] if w else [2, 17, 34, 70, 210, 260]))])
    ms += [m[:len(m) // 2] for m in ms if len(m) > 7]
    ms = [list(x) for x in dict.fromkeys(map(tuple, ms))]
    txt = model_file(r, vals, ms, 40, 0.05, None, t, w or None)
    L = ['f_write m ' + hx(txt), 'x_load x m', 'x_obs x']
    sep = ' ' if w else ''
    for k in range(3):
        q = []
        for _ in range(r.randint(1, 3)):
            m = r.choice(ms + [[r.choice(vals)]])
            q += m if r.random() < 0.7 else m[:-1]
        L.append('x_parse x ' + hx(sep.join(t[v] for v in q)))
    if r.random() < 0.5:
        L += ['x_acc x ' + hx(sep.join(t[v] for v in r.choice(ms)))]
        if r.random() < 0.5:
            L += ['x_upd x']
    L += ['x_save x f', 'f_read f', 'x_load z f', 'x_obs z', 'x_parse z ' + hx(sep.join(t[v] for v in ms[0] + ms[-1])), 'x_save z g', 'f_read g']
    return L


def y_long(r, big):
    """many or long texts fitted and transformed"""
    kind = r.choice(['char', 'word', 'comma'])
    sep = ',' if kind == 'comma' else ' '
    pool = [''.join(r.choice('abc') for _ in range(r.choice([1, 2, 3, 16, 33]))) + sep for _ in range(5)]
    many = r.random() < 0.5
    texts = [phrase(r, 0, 2, pool) for _ in range(r.choice([70, 130]))] if many else [phrase(r, 60, 140, pool), phrase(r, 1, 5, pool)]
    L = ['y_new y 30 %d %s' % (r.choice([0, 1]), kind), 'y_fit y %d %s' % (r.randint(0, 999), hxs(texts)), 'y_obs y', 'y_tr y ' + hxs(texts[:70])]
    L += ['y_tr y ' + hxs([phrase(r, 0, 2, pool + ['Q5' + sep]) for _ in range(70 if many else 5)])]
    if kind == 'char':
        L += ['y_save y f', 'f_read f', 'y_load z f', 'y_tr z ' + hxs(texts[:30])]
    return L


# ---------------------------------------------------------------- twins

def tw_b(r, big):
    al = alphabet(r, 2, 4)
    r2 = random.Random(r.random())
    st = r2.getstate()
    l1, _ = start_builder(r2, al, 'b')
    r2.setstate(st)
    l2, _ = start_builder(r2, al, 'c')
    L = l1 + l2
    lang = Lang(r, al)
    for k in range(r.randint(15, 35)):
        s = lang.seq(1, 20)
        L.append('b_acc b ' + sq(s))
        if r.random() < 0.3:
            L.append('b_obs b')
        if r.random() < 0.1:
            L.append('b_alpha b q')
            L.append('d_search q %s -' % sq([r.choice([71, 72, 73])]))
        L.append('b_acc c ' + sq(s))
        if r.random() < 0.3:
            L.append('twin b c ' + sq(lang.seq(1, 10)))
    L.append('twin b c ' + sq(lang.seq(5, 20)))
    return L


def tw_fresh(r, big):
    """twins with the default minimum probability, other builders learn in between"""
    al = alphabet(r, 2, 5)
    L = ['b_new b 0 25 0', 'b_new c 0 25 0', 'b_new o 0 25 0']
    lang = Lang(r, al)
    total = 0
    while total < (2800 if not big else 6000):
        s = lang.seq(80, 200)
        total += len(s) // (1 if total < 1200 else 2)
        L += ['b_acc b ' + sq(s), 'b_acc c ' + sq(s)]
        if r.random() < 0.25:
            L += ['b_acc o ' + sq(lang.seq(50, 200)), 'b_obs o']
        if r.random() < 0.3:
            L.append('b_obs b')
    L.append('twin b c ' + sq(lang.seq(5, 30)))
    return L


def tw_v(r, big):
    al = alphabet(r, 2, 4)
    ms = [w for w in words(r, al, r.choice([0, 2, 5]), 4) if len(w) > 1]
    txt = model_file(r, al, ms, 25, 0.2)
    new = r.random() < 0.2
    L = ['f_write m ' + hx(txt)] + (['v_new v 20', 'v_new w 20'] if new else ['v_load v m', 'v_load w m'])
    lang = Lang(r, al)
    for k in range(r.randint(12, 30)):
        s = lang.seq(1, 20)
        L += ['v_acc v ' + sq(s), 'v_acc w ' + sq(s)]
        c = r.random()
        if c < 0.3:
            L += ['v_upd v', 'v_upd w', 'twin v w ' + sq(lang.seq(1, 12))]
        elif c < 0.5:
            L += ['v_parse v ' + sq(lang.seq(1, 6)), 'v_obs v']
        elif c < 0.6:
            L += ['v_save v f -', 'v_parse v ' + sq(lang.seq(1, 6))]
    L += ['v_upd v', 'v_upd w', 'twin v w ' + sq(lang.seq(1, 12))]
    return L


def v_two(r, big):
    """pipelines of one kind, used in turns on different data"""
    L = []
    hs = ['v', 'w', 'u'][:r.choice([2, 2, 3])]
    langs = {}
    for h in hs:
        langs[h] = Lang(r, alphabet(r, 2, 4))
        L.append('v_new %s %d' % (h, r.choice([5, 12, 30])))
    for k in range(r.randint(15, 35)):
        h = r.choice(hs)
        o = r.choice(hs)
        c = r.random()
        if c < 0.4:
            L.append('v_acc %s %s' % (h, sq(langs[h].seq(1, 12))))
        elif c < 0.55:
            L.append('v_upd ' + h)
        elif c < 0.75:
            L.append('v_parse %s %s' % (h, sq(langs[o].seq(1, 8) + langs[h].seq(0, 4))))
        elif c < 0.85:
            L.append('v_obs ' + h)
        elif c < 0.92:
            L += ['v_save %s f%s -' % (h, h)]
        else:
            n = 'n%d' % k
            L += ['v_save %s f%s -' % (h, h), 'v_load %s f%s' % (n, h)]
            langs[n] = langs[o]
            hs.append(n)
    for h in hs:
        L += ['v_upd ' + h, 'v_obs ' + h]
    return L


def b_overlap(r, big):
    """overlapping entries, so that the same text is composed of different neighbours"""
    k = r.choice([3, 4])
    al = r.sample(range(-9, 20), k + 1)
    c, x = al[:k], al[k]
    S = [[a] for a in al] + [c[i:i + 2] for i in range(k - 1)]
    if r.random() < 0.3:
        S.append(c[:3])
    S.sort()
    f = r.choice([0, 0, 0, 5])
    L = ['b_new b 3 %d %s %s %s %g' % (k + r.choice([3, 6, 12]), sqs(S), sq([f] * len(S)), sqs(S), r.choice([0.02, 0.012, 0.006]))]
    for rnd in range(r.randint(2, 5)):
        n = 1
        for flip in range(r.randint(2, 6)):
            i = r.randrange(k - 1) if k > 3 and r.random() < 0.3 else 0
            a, b, d = c[i], c[i + 1], c[(i + 2) % k]
            w = [b, d, x, a, x] if flip % 2 else [a, b, x, d, x]
            L.append('b_acc b ' + sq(w * n))
            n += r.choice([1, 2, 2])
            for q in range(r.randint(1, 2)):
                L.append('b_acc b ' + sq(((c[:3] if r.random() < 0.8 else c) + [x] * r.randint(0, 1)) * r.randint(1, 3)))
    L.append('b_obs b')
    return L


def tw_i(r, big):
    al = alphabet(r, 2, 4)
    lang = Lang(r, al)
    seqs = [lang.seq(1, 30) for _ in range(r.randint(2, 6))]
    sd = r.randint(0, 10 ** 6)
    it = r.randint(1, 3)
    L = ['i_new v 20 %d' % it, 'i_new w 20 %d' % it, 'i_fit v %d -1 %s' % (sd, sqs(seqs))]
    if r.random() < 0.5:
        L += ['i_new o 30 1', 'i_fit o 5 -1 ' + sqs(seqs[:1]), 'i_tr v -1 ' + sqs(seqs[:2])]
    L += ['i_fit w %d -1 %s' % (sd, sqs(seqs)), 'twin v w ' + sq(lang.seq(1, 20))]
    return L


FAMILIES = {f.__name__: f for f in [d_mix, d_search_all, d_grow, d_canon, d_weigh_close, d_tie, d_long, d_app, d_deep, d_big, s_mix, b_fast, b_gaps, b_rate, v_fresh, b_fresh, b_reload, b_two,
                                    b_small, b_many, b_phase, b_tight, b_assoc, b_crowd, b_grams, b_new_symbols, b_low, b_patient, b_bulk, d_huge, b_overlap, v_two, k_mix, t_mix, t_round, p_mix, q_dir, v_mix, v_early, f_hand, i_mix, i_learn,
                                    i_counts, x_mix, y_mix, y_part, y_learn, d_wide, b_wide, k_wide, v_many, v_wide, tw_b, tw_fresh, tw_v, tw_i, k_long, t_long, v_long, i_long, x_long, x_book, y_long, b_one]}


def cases(mix, seed, first=1, p_big=0.1):
    """mix: {family: count} -> [(no, lines)]"""
    out = []
    no = first
    for fam, n in mix.items():
        for k in range(n):
            r = random.Random('%s/%s/%d' % (seed, fam, k))
            out.append((no, FAMILIES[fam](r, r.random() < p_big)))
            no += 1
    return out


if __name__ == '__main__':
    import sys
    import vg
    seed, spec = sys.argv[1], sys.argv[2]
    mix = {}
    for x in spec.split(','):
        f, n = x.split('=')
        mix.update({k: int(n) for k in FAMILIES} if f == 'all' else {f: int(n)})
    cs = cases(mix, seed)
    drv, kind = vg.build_driver()
    res = vg.run_cases(drv, cs, keep=sys.argv[3] if len(sys.argv) > 3 else None)
    print(kind, {k: v for k, v in res.items() if k != 'bads'})
    byno = dict(cs)
    names = []
    for f, n in mix.items():
        names += [f] * n
    seen = {}
    for b in res['bads']:
        key = (names[b[0] - 1], b[2], b[4])
        seen.setdefault(key, []).append(b)
    for key, bs in seen.items():
        b = bs[0]
        print(key, len(bs), 'first: case', b[0], 'line', b[1], b[3], '::', byno[b[0]][b[1] - 1][:200] if b[1] else '')
    if res['bads']:
        no = res['bads'][0][0]
        open('/tmp/bad.script', 'w').write(vg.script_of([(no, byno[no])]))
