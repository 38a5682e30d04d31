"""What the published forms of a result set state, and reading them back with
parsers of the simulator's own."""
import math
import re
import xml.etree.ElementTree as ET

import numpy as np

from . import compare
from .kernel import Violation

# name: (section, symbol, unit)
META = {
    'DR': ('sensitivity', 'DR', None),
    'DR_dB': ('sensitivity', '$DR_{dB}$', 'dB'),
    'DSNU1288': ('spatial', '$DSNU_{1288}$', '$e^-$'),
    'DSNU1288_DN': ('spatial', '$DSNU_{1288.DN}$', 'DN'),
    'DSNU1288_col': ('spatial', '$DSNU_{1288.col}$', '$e^-$'),
    'DSNU1288_pixel': ('spatial', '$DSNU_{1288.pixel}$', '$e^-$'),
    'DSNU1288_row': ('spatial', '$DSNU_{1288.row}$', '$e^-$'),
    'K': ('sensitivity', 'K', '$DN/e^-$'),
    'LE_max': ('linearity', '$LE_{max}$', '\\%'),
    'LE_min': ('linearity', '$LE_{min}$', '\\%'),
    'PRNU1288': ('spatial', '$PRNU_{1288}$', '\\%'),
    'PRNU1288_col': ('spatial', '$PRNU_{1288.col}$', '\\%'),
    'PRNU1288_pixel': ('spatial', '$PRNU_{1288.pixel}$', '\\%'),
    'PRNU1288_row': ('spatial', '$PRNU_{1288.row}$', '\\%'),
    'QE': ('sensitivity', '$\\eta$', '\\%'),
    'R': ('sensitivity', 'R', 'DN/p'),
    'SNR_max': ('sensitivity', '$SNR_{max}$', None),
    'SNR_max_bit': ('sensitivity', '$SNR_{max.bit}$', 'bit'),
    'SNR_max_dB': ('sensitivity', '$SNR_{max.dB}$', 'dB'),
    'histogram_DSNU': ('defect_pixel', None, None),
    'histogram_DSNU_accumulated': ('defect_pixel', None, None),
    'histogram_PRNU': ('defect_pixel', None, None),
    'histogram_PRNU_accumulated': ('defect_pixel', None, None),
    'index_linearity_max': ('linearity', None, None),
    'index_linearity_min': ('linearity', None, None),
    'index_sensitivity_max': ('sensitivity', None, None),
    'index_sensitivity_min': ('sensitivity', None, None),
    'index_start': ('info', None, None),
    'index_u_ysat': ('sensitivity', None, None),
    'inverse_K': ('sensitivity', '1/K', '$e^-/DN$'),
    'inverse_SNR_max': ('sensitivity', '$SNR_{max}^{-1}$', '\\%'),
    's_2_y': ('spatial', '$s^2_{y}$', 'DN2'),
    's_2_y_cav': ('spatial', '$s^2_{y.cav}$', 'DN2'),
    's_2_y_cav_dark': ('spatial', '$s^2_{y.cav.dark}$', 'DN2'),
    's_2_y_col': ('spatial', '$s^2_{y.col}$', 'DN2'),
    's_2_y_col_dark': ('spatial', '$s^2_{y.col.dark}$', 'DN2'),
    's_2_y_dark': ('spatial', '$s^2_{y}$', 'DN2'),
    's_2_y_measured': ('spatial', '$s^2_{y.measured}$', 'DN2'),
    's_2_y_measured_dark': ('spatial', '$s^2_{y.measured.dark}$', 'DN2'),
    's_2_y_pixel': ('spatial', '$s^2_{y.pixel}$', 'DN2'),
    's_2_y_pixel_dark': ('spatial', '$s^2_{y.pixel.dark}$', 'DN2'),
    's_2_y_rav': ('spatial', '$s^2_{y.rav}$', 'DN2'),
    's_2_y_rav_dark': ('spatial', '$s^2_{y.rav.dark}$', 'DN2'),
    's_2_y_row': ('spatial', '$s^2_{y.row}$', 'DN2'),
    's_2_y_row_dark': ('spatial', '$s^2_{y.row.dark}$', 'DN2'),
    'sigma_2_y_stack': ('spatial', '$\\sigma^2_{y.stack}$', 'DN2'),
    'sigma_2_y_stack_dark': ('spatial', '$\\sigma^2_{y.stack.dark}$', 'DN2'),
    'sigma_d': ('sensitivity', '$\\sigma_d$', '$e^-$'),
    'sigma_y_dark': ('sensitivity', '$\\sigma_{y.dark}$', 'DN'),
    'u_I_mean': ('dark_current', '$\\mu_{I.mean}$', '$e^-/s$'),
    'u_I_mean_DN': ('dark_current', '$\\mu_{I.mean.DN}$', '$DN/s$'),
    'u_I_var': ('dark_current', '$\\mu_{I.var}$', '$e^-/s$'),
    'u_I_var_DN': ('dark_current', '$\\mu_{I.var.DN}$', '$DN/s$'),
    'u_e_min': ('sensitivity', '$\\mu_{e.min}$', '$e^-$'),
    'u_e_min_area': ('sensitivity', '$\\mu_{e.min.area}$', '$e^-/\\mu m^2$'),
    'u_e_sat': ('sensitivity', '$\\mu_{e.sat}$', '$e^-$'),
    'u_e_sat_area': ('sensitivity', '$\\mu_{e.sat.area}$', '$e^-/\\mu m^2$'),
    'u_p_min': ('sensitivity', '$\\mu_{p.min}$', '$p$'),
    'u_p_min_area': ('sensitivity', '$\\mu_{p.min.area}$', '$p/\\mu m^2$'),
    'u_p_sat': ('sensitivity', '$\\mu_{p.sat}$', '$p$'),
    'u_p_sat_area': ('sensitivity', '$\\mu_{p.sat.area}$', '$p/\\mu m^2$'),
}

# rows of the summary sheet of a report: name, digits, symbol shown, unit shown
SHEET = [
    ('QE', 2, 1, 1), ('K', 3, 1, 1), ('inverse_K', 3, 1, 1),
    ('sigma_d', 3, 1, 1), ('sigma_y_dark', 3, 1, 1), ('SNR_max', 0, 1, 0),
    ('SNR_max_dB', 2, 0, 1), ('SNR_max_bit', 1, 0, 1),
    ('inverse_SNR_max', 3, 1, 1), ('u_p_min', 3, 1, 1),
    ('u_p_min_area', 3, 1, 1), ('u_e_min', 3, 1, 1),
    ('u_e_min_area', 3, 1, 1), ('u_p_sat', 0, 1, 1),
    ('u_p_sat_area', 3, 1, 1), ('u_e_sat', 0, 1, 1),
    ('u_e_sat_area', 0, 1, 1), ('DR', 0, 1, 0), ('DR_dB', 1, 0, 1),
    ('DSNU1288', 1, 1, 1), ('DSNU1288_row', 1, 1, 1),
    ('DSNU1288_col', 1, 1, 1), ('DSNU1288_pixel', 1, 1, 1),
    ('PRNU1288', 1, 1, 1), ('PRNU1288_row', 1, 1, 1),
    ('PRNU1288_col', 1, 1, 1), ('PRNU1288_pixel', 1, 1, 1),
    ('LE_min', 3, 1, 1), ('LE_max', 3, 1, 1), ('u_I_mean', 3, 1, 1),
    ('u_I_mean_DN', 3, 0, 1), ('u_I_var', 3, 1, 1), ('u_I_var_DN', 3, 0, 1),
]


def fail(what, msg, *a):
    raise Violation('form:' + what, msg % a)


def number(s, what, name):
    """A number as written, or None."""
    if s is None or s.strip() in ('None', ''):
        return None
    try:
        return float(s)
    except ValueError:
        fail(what, '%s reads %r', name, s)


def check_value(v, want, what, name):
    if not compare.same(v, want):
        fail(what, '%s is stated as %s, the result is %s', name,
             compare.brief(v), compare.brief(want))


def check_dict(d, want, what='table', sections=False):
    """The table of results (flat, or by section)."""
    if sections:
        for s, entries in d.items():
            for n, info in entries.items():
                if n in META and META[n][0] != s:
                    fail(what, '%s is listed under %s', n, s)
        flat = {}
        for entries in d.values():
            for n, info in entries.items():
                if n in flat:
                    fail(what, '%s is listed twice', n)
                flat[n] = info
        d = flat
    for n, (sec, sym, unit) in META.items():
        if n not in d:
            fail(what, '%s is missing', n)
        i = d[n]
        for k, w in (('section', sec), ('symbol', sym), ('unit', unit)):
            if i.get(k) != w:
                fail(what, 'the %s of %s is %r', k, n, i.get(k))
        if ('data' in i) == ('value' in i):
            fail(what, '%s has %s', n, sorted(i))
        check_value(i.get('data', i.get('value')), want[n], what, n)


def check_xml(text, want, what='xml'):
    try:
        root = ET.fromstring(text)
    except ET.ParseError as e:
        fail(what, 'not well formed: %s', e)
    seen = {}
    for sec in root:
        for e in sec:
            if e.tag in seen:
                fail(what, '%s is stated twice', e.tag)
            seen[e.tag] = (sec.tag, e)
    for n, (section, sym, unit) in META.items():
        if n not in seen:
            fail(what, '%s is missing', n)
        sec, e = seen[n]
        if sec != section:
            fail(what, '%s is listed under %s', n, sec)
        for k, w in (('symbol', sym), ('unit', unit)):
            if e.findtext(k) != w:
                fail(what, 'the %s of %s is %r', k, n, e.findtext(k))
        if isinstance(want[n], dict):
            d = e.find('data')
            if d is None or {x.tag for x in d} != set(want[n]):
                fail(what, '%s lacks arrays', n)
            for x in d:
                w = want[n][x.tag]
                if isinstance(w, np.ndarray):
                    g = np.array([number(t, what, n)
                                  for t in (x.text or '').split()])
                else:
                    g = number(x.text, what, n)
                check_value(g, w, what, '%s %s' % (n, x.tag))
        else:
            check_value(number(e.findtext('value'), what, n), want[n], what,
                        n)


def check_print(text, want, shorts, what='print'):
    """Every value is printed in its section with its name and symbol."""
    section, lines = None, {}
    prev = ''
    for line in text.splitlines():
        if prev.startswith('****') and line.strip():
            section = line.strip()
        lines.setdefault(section, []).append(line)
        prev = line
    for n, (sec, sym, unit) in META.items():
        if isinstance(want[n], dict):
            continue
        head = shorts[n]
        for line in lines.get(sec, ()):
            if not line.startswith(head):
                continue
            rest = line[len(head):].split()
            if len(rest) == 2 and rest[0] == str(sym) and compare.same(
                    number(rest[1], what, n), want[n]):
                lines[sec].remove(line)
                break
        else:
            fail(what, 'no line of %s states %s = %s', sec, n,
                 compare.brief(want[n]))


def shown(v, digits, strict=False):
    """How a report shows a number (missing numbers as a dash)."""
    if v is None:
        return ['-']
    if isinstance(v, float) and math.isnan(v):
        return ['-'] if strict else ['-', 'nan']
    return ['%.*f' % (digits, v)]


def rows(tex):
    """[(cells)] of the table of a summary sheet."""
    tex = re.sub(r'(?<!\\)%.*', '', tex)
    m = re.search(r'\\begin\{tabular\}(.*?)\\end\{tabular\}', tex, re.S)
    out = []
    if m:
        for r in re.split(r'\\\\(?:\[[^]]*\])?', m.group(1)):
            cells = [c.strip() for c in r.split('&')]
            cells[0] = re.sub(r'^\{.*?\n\s*\n', '', cells[0], flags=re.S)
            out.append(cells)
    return out


def check_sheet(tex, want, what='report'):
    """The summary sheet of one operation point."""
    got = [r for r in rows(tex) if len(r) > 1]
    if len(got) != len(SHEET):
        fail(what, 'the summary sheet has %d rows, not %d', len(got),
             len(SHEET))
    for r, (n, digits, sym, unit) in zip(got, SHEET):
        ok = shown(want[n], digits, n.startswith('u_I') and
                   math.isfinite(want['K']))
        w = [META[n][1] if sym else '']
        if r[0] != w[0] or r[1] not in ok or (
                unit and r[2:] != [META[n][2]]):
            fail(what, '%s is shown as %s, expected %s', n, r,
                 w + ok[:1] + ([META[n][2]] if unit else []))


def check_pairs(tex, pairs, what='report'):
    """Lines `key \\hfill value` of a section."""
    got = re.findall(r'\\textsl\{(.*?)\}\s*\\hfill[ \t]*(.*?)[ \t]*\n', tex)
    for k, v in pairs:
        if (k, v) not in got:
            fail(what, '%r is stated as %s, expected %r', k,
                 [b for a, b in got if a == k], v)
