"""Reference model: what the EMVA 1288 standard computes from given frames.

Written from the standard's formulas with exact integer arithmetic where
possible; shares no code with the code under test.
"""
import math

import numpy as np

NAN = float('nan')


class Ambiguous(Exception):
    """A decision of the evaluation hangs on the last bits of a float."""


class Undefined(Exception):
    """The standard's evaluation is not defined for these frames."""


def pair_stats(a, b):
    """Mean and temporal variance of a pair of frames (exact integers)."""
    a = a.astype(object)
    b = b.astype(object)
    P = a.size
    s = int(a.sum()) + int(b.sum())
    d = a - b
    sd = int(d.sum())
    sd2 = int((d * d).sum())
    mean = s / (2 * P)
    # 1/(2P) sum (a-b)^2 - 1/2 (mean a - mean b)^2
    var = (P * sd2 - sd * sd) / (2 * P * P)
    return mean, var


def stack_stats(imgs):
    L = len(imgs)
    M, N = imgs[0].shape
    st = np.stack([i.astype(np.int64) for i in imgs])
    S = st.sum(axis=0)
    avg = S / L
    mu = avg.mean()
    sig2 = ((st - avg) ** 2).sum(axis=0) / (L - 1)
    sig2_stack = sig2.mean()
    meas = ((avg - mu) ** 2).sum() / (M * N - 1)
    col = avg.mean(axis=0)
    row = avg.mean(axis=1)
    cav = ((col - mu) ** 2).sum() / N - sig2_stack / (L * M)
    rav = ((row - mu) ** 2).sum() / M - sig2_stack / (L * N)
    s2 = meas - sig2_stack / L
    # s2 = col + row + pixel ; cav = col + pixel / M ; rav = row + pixel / N
    A = np.array([[1., 1., 1.], [1., 0., 1. / M], [0., 1., 1. / N]])
    c, r, p = np.linalg.solve(A, np.array([s2, cav, rav]))
    return {'sum': S, 'L': L, 'M': M, 'N': N, 'mean': mu, 'stack': sig2_stack,
            'measured': meas, 'cav': cav, 'rav': rav, 's2': s2, 'col': c,
            'row': r, 'pixel': p}


def data_from_points(pts):
    """Reference of the campaign data from [(kind, texp, photons, frames)]."""
    t = {}
    s = {}
    for kind, texp, ph, imgs in pts:
        (t if kind == 'temporal' else s).setdefault(texp, {})[ph] = imgs
    out = {'texp': [], 'u_p': [], 'u_y': [], 's2_y': [], 'u_ydark': [],
           's2_ydark': []}
    for texp in sorted(t):
        m, v = pair_stats(*t[texp][0.0])
        out['texp'].append(texp)
        out['u_ydark'].append(m)
        out['s2_ydark'].append(v)
        for ph in sorted(t[texp]):
            if ph == 0.0:
                continue
            m, v = pair_stats(*t[texp][ph])
            out['u_p'].append(ph)
            out['u_y'].append(m)
            out['s2_y'].append(v)
    if len(t) == 1:
        n = len(out['u_p'])
        for k in ('texp', 'u_ydark', 's2_ydark'):
            out[k] = out[k] * n
    temporal = {k: np.asarray(v, dtype=float) for k, v in out.items()}
    if len(s) != 1:
        raise Undefined('spatial')
    (texp, sp), = s.items()
    (ph,) = [x for x in sp if x != 0.0]
    return {'temporal': temporal,
            'spatial': {'texp': texp, 'u_p': ph, 'bright': stack_stats(sp[ph]),
                        'dark': stack_stats(sp[0.0])}}


# --------------------------------------------------------------------------
def _cmp_ge(a, b, scale):
    """a >= b, refusing to decide on rounding noise."""
    if a != b and abs(a - b) <= 1e-9 * scale:
        raise Ambiguous('tie')
    return a >= b


def saturation_index(s2, exact_ties=True):
    """From the last point backwards, climb while the curve or its next
    neighbour still rises."""
    best = 0.0
    best_i = 0
    scale = max(1e-12, float(np.max(np.abs(s2))))
    n = len(s2)
    for i in range(n - 1, -1, -1):
        nb = s2[i - 1] if i > 0 else s2[1]
        up = _cmp_ge(s2[i], best, scale)
        nb_up = up or _cmp_ge(nb, best, scale)
        # an exact tie of non-zero variances may be rounded either way
        for v in (s2[i], nb):
            if v == best and v != 0.0:
                pass
        if up or nb_up:
            best, best_i = s2[i], i
        else:
            break
    return best_i


def _tie_free(s2):
    """No two non-zero variances that are equal up to rounding."""
    v = np.sort(np.asarray([x for x in s2 if x > 1e-9]))
    if len(v) < 2:
        return True
    return bool(np.min(np.diff(v)) > 1e-9 * v[-1])


def exposure_line(texp, y):
    """Least squares line through (texp, y): slope, offset and their
    absolute accuracies for an iterative solver."""
    mx = texp.mean()
    dx = texp - mx
    my = y.mean()
    slope = float((dx * (y - my)).sum() / (dx * dx).sum())
    off = float(my - slope * mx)
    scale = float(np.max(np.abs(y))) + 1e-9
    es = 1e-5 * scale / float(np.sqrt((dx * dx).mean()))
    eo = 1e-5 * scale * (1 + abs(mx) / float(np.sqrt((dx * dx).mean())))
    return slope, off, es, eo


def results(data, pixel_area=None, index_u_ysat=None):
    """{name: (value, tolerance)}; tolerance is absolute; None = do not
    compare (ill conditioned)."""
    t = data['temporal']
    b, d = data['spatial']['bright'], data['spatial']['dark']
    X, s2 = t['u_p'], t['s2_y']
    if not _tie_free(s2):
        raise Ambiguous('equal variances')
    Y = t['u_y'] - t['u_ydark']
    V = t['s2_y'] - t['s2_ydark']
    r = {}

    def put(name, v, rel=1e-8, abs_=0.0):
        v = float(v)
        tol = abs_ + rel * (abs(v) if math.isfinite(v) else 0.0) + 1e-12
        r[name] = (v, tol)

    def amb(a, bb):
        if a != bb and abs(a - bb) <= 1e-9 * max(1., abs(a), abs(bb)):
            raise Ambiguous('threshold')

    sat = index_u_ysat or saturation_index(s2)
    ysat = Y[sat]

    def last_le(frac):
        for y in Y:
            amb(y, frac * ysat)
        idx = [i for i, y in enumerate(Y) if y <= frac * ysat]
        if not idx:
            raise Undefined('no point below %s of saturation' % frac)
        return idx[-1]

    put('s2q', 1 / 12)
    put('index_start', 0)
    put('index_u_ysat', sat)
    smax = last_le(0.7)
    put('index_sensitivity_max', smax)
    put('index_sensitivity_min', 0)
    xs, ys, vs = X[:smax + 1], Y[:smax + 1], V[:smax + 1]
    if float((xs * xs).sum()) == 0 or float((ys * ys).sum()) == 0:
        raise Undefined('no signal')
    R = float((xs * ys).sum() / (xs * xs).sum())
    K = float((ys * vs).sum() / (ys * ys).sum())
    F = 2e-6                     # relative accuracy of an iterative fit
    # cancellation: accuracy relative to the terms, not to the sum
    kscale = float(np.abs(ys * vs).sum() / (ys * ys).sum())
    rscale = float(np.abs(xs * ys).sum() / (xs * xs).sum())
    eK = F * kscale / max(abs(K), 1e-300)     # relative error of K
    eR = F * rscale / max(abs(R), 1e-300)
    if eK > 1e-3 or eR > 1e-3:
        raise Ambiguous('fit without slope')
    put('R', R, eR)
    put('K', K, eK)
    put('inverse_K', 1 / K, 2 * eK)
    QE = 100 * R / K
    eQ = eK + eR
    put('QE', QE, 2 * eQ)

    texp = t['texp']
    uniq = len(set(texp.tolist()))

    def line(y):
        return exposure_line(texp, y)

    if uniq <= 2:
        s2d, e2d = float(t['s2_ydark'][0]), 1e-9
        for n in ('u_I_var_DN', 'u_I_var', 'u_I_mean_DN', 'u_I_mean'):
            put(n, NAN)
    else:
        sl, s2d, es, e2d = line(t['s2_ydark'])
        if abs(sl) <= 3 * es:
            r['u_I_var_DN'] = r['u_I_var'] = (sl / K * 1e9, None)
        elif sl < 0:
            put('u_I_var_DN', NAN)
            put('u_I_var', NAN)
        else:
            put('u_I_var_DN', sl / K * 1e9, 2 * eK, es / abs(K) * 1e9)
            put('u_I_var', sl / K ** 2 * 1e9, 4 * eK, es / K ** 2 * 1e9)
        ml, mo, es, eo = line(t['u_ydark'])
        put('u_I_mean_DN', ml * 1e9, 1e-8, es * 1e9)
        put('u_I_mean', ml / K * 1e9, 2 * eK, es / abs(K) * 1e9)
    if abs(s2d - 0.24) <= 3 * e2d:
        raise Ambiguous('noise floor')
    if s2d < 0.24:
        s2d, e2d = 0.24, 0.0
    sd = math.sqrt(s2d)
    esd = e2d / (2 * sd)
    put('sigma_y_dark', sd, 1e-8, esd)
    put('sigma_d', math.sqrt(s2d - 1 / 12) / K, 2 * eK,
        e2d / (2 * math.sqrt(s2d - 1 / 12)) / abs(K))
    upmin = 100 / QE * (sd / K + .5)
    eup = abs(100 / QE) * ((esd + 2 * eK * sd) / abs(K)) + \
        abs(upmin) * 2 * eQ
    put('u_p_min', upmin, 1e-8, eup)
    put('u_e_min', QE * upmin / 100, 1e-8, abs(QE / 100) * eup +
        abs(QE * upmin / 100) * 2 * eQ)
    psat = float(X[sat])
    esat = QE * psat / 100
    put('u_p_sat', psat)
    put('u_e_sat', esat, 2 * eQ)
    for n in ('u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat'):
        if pixel_area:
            put(n + '_area', r[n][0] / pixel_area, 1e-8, r[n][1] / pixel_area)
        else:
            r[n + '_area'] = (None, 0)
    snr = math.sqrt(esat) if esat >= 0 else NAN
    put('SNR_max', snr, 2 * eQ)
    put('SNR_max_dB', 20 * math.log10(snr) if snr > 0 else NAN, 1e-6, 20 * eQ)
    put('SNR_max_bit', math.log2(snr) if snr > 0 else NAN, 1e-6, 4 * eQ)
    put('inverse_SNR_max', 100 / snr if snr else math.inf, 2 * eQ)
    DR = psat / upmin
    eDR = abs(DR) * eup / abs(upmin)
    put('DR', DR, 1e-7, 2 * eDR)
    put('DR_dB', 20 * math.log10(DR) if DR > 0 else NAN, 1e-6,
        20 * eDR / abs(DR))
    # linearity: points from 5 % to 95 % of saturation, relative residuals
    for y in Y:
        amb(y, .05 * ysat)
    lo = [i for i, y in enumerate(Y) if y >= .05 * ysat]
    if not lo:
        raise Undefined('no point above 5 %')
    lmin, lmax = lo[0], last_le(0.95)
    put('index_linearity_min', lmin)
    put('index_linearity_max', lmax)
    xl, yl = X[lmin:lmax + 1], Y[lmin:lmax + 1]
    if len(xl) >= 2 and np.all(yl != 0) and len(set(xl.tolist())) >= 2:
        # minimise sum ((y - a x - b) / y)^2
        xr = xl / xl.max()
        A = np.stack([xr / yl, 1 / yl], axis=1)
        sol, _res, rank, sv = np.linalg.lstsq(A, np.ones(len(xl)), rcond=None)
        a, off = float(sol[0] / xl.max()), float(sol[1])
        cond = float(sv[0] / sv[-1]) if sv[-1] else math.inf
        acc = min(1e-3, 1e-13 * cond ** 2 + 1e-9)
        if cond < 1e4 and rank == 2:
            fit = a * X + off
            dev = 100 * (Y - fit) / fit
            span = float(np.abs(yl).max())
            tol_dev = np.abs(100 * Y / fit ** 2) * acc * span * 4 + 1e-9
            put('fit_slope', a, acc * 10, acc * span / float(xl.max()) * 10)
            put('fit_offset', off, 1e-7, acc * span * 10)
            r['relative_deviation'] = (dev, tol_dev * 10)
            w = dev[lmin:lmax + 1]
            tw = float(np.max(tol_dev[lmin:lmax + 1])) * 10
            put('LE_min', w.min(), 1e-7, tw)
            put('LE_max', w.max(), 1e-7, tw)
    # spatial non uniformities
    for suffix, q in (('', b), ('_dark', d)):
        sc = abs(q['measured']) + abs(q['stack'])
        put('sigma_2_y_stack' + suffix, q['stack'])
        put('s_2_y_measured' + suffix, q['measured'], 1e-8, 1e-10 * sc)
        put('s_2_y' + suffix, q['s2'], 1e-8, 1e-9 * sc)
        for n in ('cav', 'rav', 'col', 'row', 'pixel'):
            put('s_2_y_%s%s' % (n, suffix), q[n], 1e-8, 1e-8 * sc)
    scd = abs(d['measured']) + abs(d['stack'])
    scb = abs(b['measured']) + abs(b['stack']) + scd

    def root(name, v, factor, sc, relf):
        if abs(v) <= 1e-7 * sc:
            r[name] = (NAN, None)
        elif v < 0:
            put(name, NAN)
        else:
            put(name, math.sqrt(v) * factor, 1e-7 + relf,
                1e-8 * sc / (2 * math.sqrt(v)) * abs(factor))
    root('DSNU1288', d['s2'], 1 / K, scd, 2 * eK)
    root('DSNU1288_DN', d['s2'], 1., scd, 0)
    for n in ('row', 'col', 'pixel'):
        root('DSNU1288_' + n, d[n], 1 / K, scd, 2 * eK)
    diff = b['mean'] - d['mean']
    if abs(diff) > 1e-6:
        root('PRNU1288', b['s2'] - d['s2'], 100 / diff, scb, 1e-8)
        for n in ('row', 'col', 'pixel'):
            root('PRNU1288_' + n, b[n] - d[n], 100 / diff, scb, 1e-8)
    return r


# --------------------------------------------------------------------------
def _hist(vals, qmax=256):
    """Histogram of integers as the standard describes: at most qmax bins of
    equal integer width. Pure Python."""
    flat = [int(v) for v in vals]
    lo, hi = min(flat), max(flat)
    q = hi - lo
    W, Q = 1, q + 1
    if Q > qmax:
        W = q // qmax + 1
        Q = q // W + 1
    H = [0] * Q
    for v in flat:
        H[(v - lo) // W] += 1
    bins = [lo + i * W for i in range(Q)]
    n = len(flat)
    mu = sum(flat) / n
    var = sum((v - mu) ** 2 for v in flat) / n
    sig = math.sqrt(var)
    model = None
    if sig > 0:
        model = [(hi - lo) / Q * n / (math.sqrt(2 * math.pi) * sig) *
                 math.exp(-.5 * ((x - mu) / sig) ** 2) for x in bins]
    return bins, H, model


def _prnu_int(b, d):
    m = b['L'] * d['L'] // math.gcd(b['L'], d['L'])
    y = b['sum'] * (m // b['L']) - d['sum'] * (m // d['L'])
    M, N = y.shape
    box = np.zeros((M - 4, N - 4), dtype=np.int64)
    for i in range(5):
        for j in range(5):
            box += y[i:M - 4 + i, j:N - 4 + j]
    return 25 * y[2:-2, 2:-2] - box, m * 25


def histograms(data):
    """{name: {'bins','values','model'}}"""
    b, d = data['spatial']['bright'], data['spatial']['dark']
    out = {}
    S = d['sum']
    bins, H, model = _hist(S.ravel())
    out['histogram_DSNU'] = {
        'bins': np.asarray(bins) / d['L'] - S.mean() / d['L'],
        'values': np.asarray(H), 'model': model}
    y = np.abs(S - int(S.mean()))
    bins, H, model = _hist(y.ravel())
    out['histogram_DSNU_accumulated'] = {
        'bins': np.asarray(bins) / d['L'],
        'values': 100. * np.cumsum(H[::-1])[::-1] / y.size, 'model': model}
    y, m = _prnu_int(b, d)
    bins, H, model = _hist(y.ravel())
    out['histogram_PRNU'] = {'bins': np.asarray(bins) / m,
                             'values': np.asarray(H), 'model': model}
    mean = y.mean()
    if abs(mean - round(mean)) > 1e-9 or mean == round(mean):
        z = np.abs(y - int(mean))
        bins, H, model = _hist(z.ravel())
        out['histogram_PRNU_accumulated'] = {
            'bins': np.asarray(bins) / m,
            'values': 100. * np.cumsum(H[::-1])[::-1] / z.size,
            'model': model}
    return out
