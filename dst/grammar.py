"""Reference reading of a descriptor file, from its documented grammar."""
import os


class Rejected(Exception):
    pass


def read(raw, dirname, allow_nan=True):
    """bytes -> {'version','format','images': {kind: {(texp, photons):
    [paths]}}, 'unknown': [lines]} or Rejected."""
    try:
        text = raw.decode('utf-8')
    except UnicodeDecodeError as e:
        raise Rejected('not UTF-8: %s' % e)
    lines = text.replace('\r\n', '\n').replace('\r', '\n').split('\n')
    lines = [x.strip() for x in lines]
    lines = [x for x in lines if x and not x.startswith('#')]
    out = {'version': None, 'format': {}, 'unknown': [],
           'images': {'temporal': {}, 'spatial': {}}, 'loose': False}
    i = 0

    def num(s):
        try:
            return float(s.replace(',', '.'))
        except ValueError:
            raise Rejected('number %r' % s)
    while i < len(lines):
        f = lines[i].split()
        i += 1
        if len(f) < 2:
            raise Rejected('line %r' % lines[i - 1])
        if f[0] == 'v':
            if out['version'] is not None or len(f) > 2:
                out['loose'] = True
            out['version'] = f[1]
        elif f[0] == 'n':
            if len(f) != 4 or out['format']:
                raise Rejected('format line')
            try:
                out['format'] = dict(zip(('bits', 'width', 'height'),
                                         (int(x) for x in f[1:])))
            except ValueError:
                raise Rejected('format numbers')
        elif f[0] in 'bd' and len(f[0]) == 1:
            if len(f) != (3 if f[0] == 'b' else 2):
                raise Rejected('point line')
            t = num(f[1])
            ph = num(f[2]) if f[0] == 'b' else 0.0
            names = []
            while i < len(lines):
                g = lines[i].split()
                if len(g) < 2:
                    raise Rejected('line %r' % lines[i])
                if g[0] != 'i':
                    break
                if len(g) != 2:
                    raise Rejected('image line %r' % lines[i])
                names.append(os.path.normpath(os.path.join(
                    dirname, g[1].replace('\\', '/'))))
                i += 1
            if len(names) < 2:
                raise Rejected('series of %d' % len(names))
            kind = 'temporal' if len(names) == 2 else 'spatial'
            if (t, ph) in out['images'][kind]:
                raise Rejected('point twice')
            out['images'][kind][(t, ph)] = names
        else:
            out['unknown'].append(lines[i - 1])
    return out
