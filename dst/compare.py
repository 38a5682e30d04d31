"""Oracles shared by the checks: reading results through the public interface
and comparing them with the reference model or with each other."""
import math

import numpy as np

from . import ref
from .kernel import Violation

VALUES = [
    's2q', 'index_start', 'index_u_ysat', 'index_sensitivity_max',
    'index_sensitivity_min', 'R', 'K', 'inverse_K', 'QE', 'sigma_y_dark',
    'sigma_d', 'u_p_min', 'u_p_min_area', 'u_e_min', 'u_e_min_area',
    'u_p_sat', 'u_p_sat_area', 'u_e_sat', 'u_e_sat_area', 'SNR_max',
    'SNR_max_dB', 'SNR_max_bit', 'inverse_SNR_max', 'DR', 'DR_dB',
    'index_linearity_min', 'index_linearity_max', 'LE_min', 'LE_max',
    'u_I_var_DN', 'u_I_var', 'u_I_mean_DN', 'u_I_mean', 'sigma_2_y_stack',
    'sigma_2_y_stack_dark', 's_2_y_measured', 's_2_y_measured_dark', 's_2_y',
    's_2_y_dark', 's_2_y_cav', 's_2_y_cav_dark', 's_2_y_rav',
    's_2_y_rav_dark', 's_2_y_col', 's_2_y_col_dark', 's_2_y_row',
    's_2_y_row_dark', 's_2_y_pixel', 's_2_y_pixel_dark', 'DSNU1288',
    'DSNU1288_DN', 'DSNU1288_row', 'DSNU1288_col', 'DSNU1288_pixel',
    'PRNU1288', 'PRNU1288_row', 'PRNU1288_col', 'PRNU1288_pixel',
]
TABLES = ['linearity', 'histogram_PRNU', 'histogram_PRNU_accumulated',
          'histogram_DSNU', 'histogram_DSNU_accumulated']
NAMES = VALUES + TABLES


def read(res, name):
    v = getattr(res, name)
    if callable(v):
        v = v()
    return v


def plain(v):
    """A private copy of a returned value."""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, np.ndarray):
        return np.array(v, copy=True)
    return v


def snapshot(res, names=NAMES):
    return {n: plain(read(res, n)) for n in names}


def same(a, b, rel=1e-9):
    """Equality of results up to rounding."""
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict) and
                set(a) == set(b) and all(same(a[k], b[k], rel) for k in a))
    x = np.asarray(a, dtype=float)
    y = np.asarray(b, dtype=float)
    if x.shape != y.shape:
        return False
    nx, ny = np.isnan(x), np.isnan(y)
    if not np.array_equal(nx, ny):
        return False
    x, y = x[~nx], y[~ny]
    if x.size == 0:
        return True
    inf = np.isinf(x) | np.isinf(y)
    if np.any(x[inf] != y[inf]):
        return False
    x, y = x[~inf], y[~inf]
    if x.size == 0:
        return True
    scale = max(float(np.max(np.abs(x))), float(np.max(np.abs(y))))
    return bool(np.all(np.abs(x - y) <= rel * scale + 1e-12))


def identical(a, b):
    return same(a, b, 0.0)


def require_same(a, b, kind, what, rel=1e-9, names=None):
    for n in (names or sorted(set(a) | set(b))):
        if n not in a or n not in b:
            raise Violation(kind, '%s: %s missing' % (what, n))
        if not same(a[n], b[n], rel):
            raise Violation(kind, '%s: %s is %s, expected %s' % (
                what, n, brief(a[n]), brief(b[n])))


def brief(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + '...'


def close(v, want, tol):
    if isinstance(want, np.ndarray):
        v = np.asarray(v, dtype=float)
        if v.shape != want.shape:
            return False
        ok = np.abs(v - want) <= tol
        return bool(np.all(ok | (np.isnan(v) & np.isnan(want)) |
                           ~np.isfinite(tol)))
    v = float(v)
    if math.isnan(want) or math.isnan(v):
        return math.isnan(want) and math.isnan(v)
    if math.isinf(want) or math.isinf(v):
        return want == v
    return abs(v - want) <= tol


def check_temporal(got, want, kind='data'):
    """Temporal data of the pipeline against the reference."""
    for k in ('texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark'):
        if k not in got:
            raise Violation(kind + ':temporal', 'no %r' % k)
        g = np.asarray(got[k], dtype=float)
        w = want[k]
        if g.shape != w.shape:
            raise Violation(kind + ':temporal', '%s has shape %s, expected %s'
                            % (k, g.shape, w.shape))
        # variances: rounding of the means enters with the grey value
        tol = 1e-9 * np.maximum(np.abs(w), 1.0)
        if k.startswith('s2'):
            m = want['u_y'] if k == 's2_y' else want['u_ydark']
            tol = tol + 1e-10 * np.maximum(np.abs(m), 1.0)
        bad = np.argwhere(~(np.abs(g - w) <= tol))
        if bad.size:
            i = int(bad[0][0])
            raise Violation(kind + ':temporal', '%s[%d] = %r, expected %r'
                            % (k, i, g[i], w[i]))


SPATIAL = {'avg_mean': 'mean', 'var_mean': 'stack', 'avg_var': 'measured',
           'avg_var_cav': 'cav', 'avg_var_rav': 'rav'}


def check_spatial(got, want, kind='data'):
    for k in ('texp', 'u_p'):
        if float(got[k]) != float(want[k]):
            raise Violation(kind + ':spatial', '%s = %r, expected %r'
                            % (k, got[k], want[k]))
    for suf, q in (('', want['bright']), ('_dark', want['dark'])):
        if not np.array_equal(np.asarray(got['sum' + suf]), q['sum']):
            raise Violation(kind + ':spatial', 'sum%s image differs' % suf)
        if int(got['L' + suf]) != q['L']:
            raise Violation(kind + ':spatial', 'L%s = %r, expected %r'
                            % (suf, got['L' + suf], q['L']))
        sc = abs(q['measured']) + abs(q['stack'])
        for k, r in SPATIAL.items():
            tol = 1e-9 * abs(q[r]) + 1e-9 * sc + 1e-12
            if not abs(float(got[k + suf]) - q[r]) <= tol:
                raise Violation(kind + ':spatial', '%s = %r, expected %r' % (
                    k + suf, float(got[k + suf]), q[r]))


def check_data(got, want, kind='data'):
    check_temporal(got['temporal'], want['temporal'], kind)
    check_spatial(got['spatial'], want['spatial'], kind)


def check_results(res, want, ctx, kind='results', names=None, area=None):
    """Values of a results object (read through `read`) against the
    reference {name: (value, tolerance)}."""
    lin = None
    for n in (names or VALUES):
        if n not in want:
            continue
        w, tol = want[n]
        if tol is None:
            ctx.probe('ill conditioned, not compared')
            continue
        v = read(res, n) if not isinstance(res, dict) else res[n]
        if w is None:
            if v is not None:
                raise Violation(kind + ':' + n, 'is %r, expected None' % (v,))
            continue
        if v is None or not close(v, w, tol):
            raise Violation(kind + ':' + n, '%s = %r, expected %r +- %.3g'
                            % (n, v, w, tol))
    if names is None and 'fit_slope' in want:
        lin = res['linearity'] if isinstance(res, dict) \
            else read(res, 'linearity')
        for n in ('fit_slope', 'fit_offset', 'relative_deviation'):
            w, tol = want[n]
            if not close(lin[n], w, tol):
                raise Violation(kind + ':linearity', '%s = %s, expected %s'
                                % (n, brief(lin[n]), brief(w)))
        for n, m in (('linearity_error_min', 'LE_min'),
                     ('linearity_error_max', 'LE_max')):
            if not close(lin[n], *want[m]):
                raise Violation(kind + ':linearity', '%s = %r, expected %r'
                                % (n, lin[n], want[m][0]))


def check_histograms(res, data, kind='results'):
    want = ref.histograms(data)
    for n, w in want.items():
        h = res[n] if isinstance(res, dict) else read(res, n)
        for k in ('bins', 'values'):
            g = np.asarray(h[k], dtype=float)
            if g.shape != w[k].shape:
                raise Violation('%s:%s' % (kind, n), '%d %s, expected %d'
                                % (g.size, k, w[k].size))
            tol = 1e-9 * max(1.0, float(np.max(np.abs(w[k]))))
            if not np.all(np.abs(g - w[k]) <= tol):
                i = int(np.argmax(np.abs(g - w[k])))
                raise Violation('%s:%s' % (kind, n), '%s[%d] = %r, expected '
                                '%r' % (k, i, g[i], w[k][i]))
        if w['model'] is not None:
            g = np.asarray(h['model'], dtype=float)
            m = np.asarray(w['model'])
            if g.shape != m.shape or not np.all(
                    np.abs(g - m) <= 1e-6 * max(1e-9, np.max(m))):
                raise Violation('%s:%s' % (kind, n), 'model curve differs')


def reference(points, pixel_area=None, index_u_ysat=None):
    """(data, results) of the reference model for lab Points."""
    d = ref.data_from_points([(p.kind, p.texp, p.photons, p.imgs)
                              for p in points])
    return d, ref.results(d, pixel_area, index_u_ysat)
