"""P17: window declustering."""
import itertools
import math

import numpy as np
import pandas as pd

from mc.core import Family, close
from seismostats import Catalog
from seismostats.analysis.declustering import (GardnerKnopoffType1,
                                               GardnerKnopoffWindow,
                                               GruenthalWindow,
                                               UhrhammerWindow)

ID = 'P17'
RULE = ('all sets of up to 3 (thorough 4) events over magnitudes x times x '
        'distances just inside and outside the windows, and all sets of 4 '
        '(thorough 5) over a coarser lattice, x row orders x index types x '
        'window functions x cutoffs x foreshock fractions x containers x '
        'geometry (north, east, across the date line, near the pole); window '
        'functions on a magnitude lattice -1..9; pairs and triples with times '
        'less than a second off each other and the window edges; oracle: the window rule in '
        'plain Python')
ASSUMPTIONS = ['event times are whole microseconds', 'no event lies within 1e-6 km '
               'or 1 ms of a window edge', 'events equal in magnitude and time are left '
               'out (their order is not defined)']

R = 6371.227
WIN = {'gk': GardnerKnopoffWindow, 'gruenthal': GruenthalWindow,
       'uhrhammer': UhrhammerWindow}


def windows(kind, m):
    """published space (km) and time (days) windows"""
    if kind == 'gk':
        return (10 ** (0.1238 * m + 0.983),
                10 ** (0.032 * m + 2.7389) if m >= 6.5
                else 10 ** (0.5409 * m - 0.547))
    if kind == 'uhrhammer':
        return math.exp(-1.024 + 0.804 * m), math.exp(-2.87 + 1.235 * m)

    def sq(x):
        return math.sqrt(x) if x >= 0 else math.nan
    return (math.exp(1.77 + sq(0.037 + 1.02 * m)),
            10 ** (2.8 + 0.024 * m) if m >= 6.5
            else math.exp(-3.95 + sq(0.62 + 17.32 * m)))


def dist(a, b):
    """great circle by the chord"""
    (x1, y1), (x2, y2) = [(math.radians(p), math.radians(q))
                          for p, q in (a, b)]
    v = [math.cos(y) * math.cos(x) for x, y in ((x1, y1), (x2, y2))]
    w = [math.cos(y) * math.sin(x) for x, y in ((x1, y1), (x2, y2))]
    z = [math.sin(y1), math.sin(y2)]
    c = math.sqrt(sum((i[0] - i[1]) ** 2 for i in (v, w, z)))
    return 2 * R * math.asin(min(1.0, c / 2))


def place(km, geo):
    deg = math.degrees(km / R)
    if geo == 'north':
        return (8.0, 46.5 + deg)
    if geo == 'south':
        return (-70.0, -30.0 - deg)
    if geo == 'dateline':
        x = 179.9 + deg
        return (x - 360 if x > 180 else x, 0.0)
    # over the pole along a meridian
    y = 89.9 + deg
    return (10.0, y) if y <= 90 else (-170.0, 180 - y)


def model(ev, kind, cutoff, fs):
    """ev: (mag, seconds, (lon, lat)); returns flags or None if on an edge"""
    n = len(ev)
    owner = [None] * n
    flags = [True] * n
    for i in sorted(range(n), key=lambda i: (-ev[i][0], ev[i][1])):
        if owner[i] is not None:
            continue
        space, days = windows(kind, ev[i][0])
        if cutoff is not None:
            days = min(days, cutoff)
        after, before = days * 86400, days * 86400 * fs
        for j in range(n):
            dt = ev[j][1] - ev[i][1]
            if owner[j] is not None and j != i:
                continue
            lim = after if dt >= 0 else before
            d = dist(ev[i][2], ev[j][2])
            if dt and abs(abs(dt) - lim) < 1e-3 or \
                    (d > 1e-9 and abs(d - space) < 1e-6):
                return None
            if abs(dt) <= lim and d <= space:
                owner[j] = i
                flags[j] = j == i
        if owner[i] is None:
            owner[i] = i
    return flags


INDEX = ('range', 'shifted', 'permuted', 'text', 'repeated', 'reversed',
         'times')


def make(rows, index, container, tfmt):
    n = len(rows)
    t0 = pd.Timestamp('2011-12-30')
    times = [t0 + pd.Timedelta(seconds=r[1]) for r in rows]
    if tfmt == 'text':
        times = [t.isoformat(timespec='milliseconds') for t in times]
    if tfmt == 's' and all(float(r[1]).is_integer() for r in rows):
        times = np.array(times, dtype='datetime64[s]')
    df = pd.DataFrame({'longitude': [r[2][0] for r in rows],
                       'latitude': [r[2][1] for r in rows],
                       'time': times, 'magnitude': [r[0] for r in rows],
                       'depth': [1.] * n})
    if index == 'shifted':
        df.index = range(5, 5 + n)
    elif index == 'permuted':
        df.index = [(i + 1) % n for i in range(n)]
    elif index == 'text':
        df.index = [f'ev{i}' for i in range(n)]
    elif index == 'repeated':
        df.index = [0] * n
    elif index == 'reversed':
        df.index = range(n - 1, -1, -1)
    elif index == 'times':
        df.index = pd.to_datetime(df['time'])
    return Catalog(df) if container == 'catalog' else df


def run(case, rec):
    ev, geo, kind, cutoff, fs, order, index, container, tfmt = case
    ev = [(m, t, place(km, geo)) for m, t, km in ev]
    rows = [ev[i] for i in order]
    rec.state(case)
    if len({r[:2] for r in rows}) < len(rows):
        return
    want = model(rows, kind, cutoff, fs)
    if want is None:
        return
    cat = make(rows, index, container, tfmt)
    before = cat.copy()
    win = WIN[kind]() if cutoff is None else WIN[kind](time_cutoff=cutoff)
    # one is the default
    dec = GardnerKnopoffType1(win) if fs == 1.0 and len(ev) % 2 else \
        GardnerKnopoffType1(time_distance_window=win, fs_time_prop=fs)
    got = dec(cat)
    rec.step()
    rec.check(len(got) == len(rows) and [bool(x) for x in got] == want,
              'labels', lambda: f'{case}: {[bool(x) for x in got]} != {want}')
    rec.check(got.dtype == bool, 'type of labels', lambda: str(got.dtype))
    rec.check(type(cat) is type(before) and cat.equals(before) and
              list(cat.index) == list(before.index) and
              list(cat.columns) == list(before.columns), 'catalog changed',
              lambda: f'{case}')
    rec.outcome(tuple(want))


def run_window(case, rec):
    kind, mags, cutoff, how = case
    rec.state(case)
    arr = np.array(mags)
    if how == 'series':
        arr = pd.Series(mags, index=range(3, 3 + len(mags)))
    elif how == 'reversed':
        arr = arr[::-1]
    win = WIN[kind]() if cutoff is None else WIN[kind](time_cutoff=cutoff)
    sp, ti = win(arr)
    rec.step()
    arr = list(arr)
    for m, s, t in zip(arr, list(sp), list(ti)):
        ws, wt = windows(kind, m)
        if ws != ws or wt != wt:
            continue
        if cutoff is not None:
            wt = min(wt, cutoff)
        rec.check(close(s, ws, 1e-9), 'space', lambda: f'{kind} {m}: {s} {ws}')
        rec.check(abs(pd.Timedelta(t).total_seconds() - wt * 86400) <=
                  1e-6 * (1 + wt), 'time',
                  lambda: f'{kind} {m} {cutoff}: {t} {wt}')
    rec.check(len(list(sp)) == len(list(ti)) == len(mags), 'length', '')
    want = list(mags)[::-1] if how == 'reversed' else list(mags)
    rec.check(arr == want, 'input modified', f'{case}')
    rec.outcome((kind, cutoff))


def lattice(kind, mags):
    ts, ds = [0], [0.0]
    for m in mags:
        s, t = windows(kind, m)
        ts += [int(t * 86400) - 1, int(t * 86400) + 2]
        ds += [s * 0.999, s * 1.001]
    return ts, ds


def gen(tier, kind):
    c = 0
    mags = (5.0, 4.2, 3.0)
    perms = {n: list(itertools.permutations(range(n))) for n in range(6)}
    ts, ds = lattice(kind, mags)
    plans = [
        # number of events, times, distances, magnitudes
        (2, ts, ds, mags),
        (3, [ts[0], ts[3], ts[4], ts[5], ts[1]], [0.0, ds[3], ds[4]], mags),
        (4, [ts[0], ts[3], ts[4] + 60], [0.0, ds[3]], mags),
    ]
    if tier != 'quick':
        plans += [(3, ts, ds[:1] + ds[3:], mags),
                  (4, [ts[0], ts[3], ts[4], ts[1]], [0.0, ds[3], ds[4]],
                   mags[:2]),
                  (5, [ts[0], ts[3], ts[1]], [0.0, ds[3]], mags[:2])]
    for n, tt, dd, mm in plans:
        alpha = list(itertools.product(mm, tt, dd))
        for ev in itertools.combinations(alpha, n):
            if min(e[1] for e in ev) != 0:
                continue
            c += 1
            if tier == 'quick' and n == 4 and kind != 'gk' and c % 4:
                continue
            yield (ev, ('north', 'dateline', 'pole', 'south')[c % 4], kind,
                   (None, None, 20.0, 0, 0.5)[c % 5],
                   (1.0, 0.0, 0.5)[c % 3], perms[n][c % len(perms[n])],
                   INDEX[c % 7], ('catalog', 'frame')[c % 2],
                   ('ns', 's', 'text')[c % 3] if c % 2 else 'ns')


def gen_orders(tier):
    """every row order and every index type of a few tricky sets"""
    ts, ds = lattice('gk', (5.0, 4.2, 3.0))
    sets = [
        [(4.2, 0, 0.0), (5.0, ts[3], ds[3]), (3.0, ts[4], 0.0)],
        [(5.0, 0, 0.0), (5.0, ts[3], ds[3]), (4.2, ts[3], 0.0),
         (3.0, ts[1], ds[4])],
        [(3.0, 0, 0.0), (3.0, ts[5], 0.0), (4.2, ts[3], ds[5]),
         (5.0, ts[1], 0.0)],
        [], [(4.0, 0, 0.0)],
    ]
    if tier != 'quick':
        sets.append([(5.0, 0, 0.0), (4.9, ts[3], ds[3]), (4.2, ts[4], ds[5]),
                     (3.0, ts[1], 0.0), (3.1, ts[2], ds[3])])
    for ev in sets:
        for order in itertools.permutations(range(len(ev))):
            for index in INDEX:
                for cont in ('catalog', 'frame'):
                    for tf in ('ns', 's'):
                        if not ev and index in ('times', 'permuted'):
                            continue
                        if not ev and cont == 'catalog':
                            continue
                        yield (tuple(ev), 'north', 'gk', None, 1.0, order,
                               index, cont, tf)


def gen_fractions(tier):
    """times which differ from each other and the windows by less than 1 s"""
    c = 0
    big, small = 4.2, 3.0
    for kind in WIN:
        t = {m: windows(kind, m)[1] * 86400 for m in (big, small)}
        for base in (0.0, 0.125, 0.5, 0.875, -3.25):
            for cutoff in (None, 0, 1.0):
                for fs in (1.0, 0.0, 0.5):
                    edge = t[big] if cutoff is None else cutoff * 86400
                    offs = [round(edge + d, 3) for d in (
                        -0.75, -0.25, -0.01, 0.01, 0.25, 0.75)] + [
                        round(-edge * fs + d, 3) for d in (
                            -0.75, -0.25, -0.01, 0.01, 0.25, 0.75)] + [
                        -0.5, 0.25]
                    for off in offs:
                        for third in (None, 0.375, 0.01) \
                                if tier == 'quick' else (
                                    None, 0.375, 0.01, -0.01, -0.375):
                            ev = [(big, base, 0.0), (small, base + off, 0.0)]
                            if third is not None:
                                ev.append((small, base + off + third, 0.0))
                            c += 1
                            n = len(ev)
                            order = [(i + c) % n for i in range(n)]
                            yield (tuple(ev), 'north', kind, cutoff, fs,
                                   tuple(order), INDEX[c % 7],
                                   ('catalog', 'frame')[c % 2],
                                   ('ns', 'text')[c // 2 % 2])


def gen_window(tier):
    grid = [round(-1 + i * 0.05, 3) for i in range(201)]
    for kind in WIN:
        if kind == 'gruenthal':
            grid = [g for g in grid if g >= 0]
        for cutoff in (None, 0, 0.01, 10.0, 100, 1000.):
            for how in ('array', 'series', 'reversed'):
                for i in range(0, len(grid), 5):
                    yield (kind, tuple(grid[i:i + 5]), cutoff, how)
                    yield (kind, (grid[i],), cutoff, how)
                yield (kind, (6.4999999, 6.5, 6.5000001), cutoff, how)


def families(tier):
    return [Family('windows', gen_window(tier), run_window, 100),
            Family('orders', gen_orders(tier), run, 40),
        Family('fractions', gen_fractions(tier), run, 40)] + [
        Family('rule-' + k, gen(tier, k), run, 40) for k in WIN]
