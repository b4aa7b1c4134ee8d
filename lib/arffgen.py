"""Random data sets and an ARFF/Mulan XML writer that is independent of the one that is part of the testbed."""
import os
import numpy as np

NUM, ORD, NOM = 'NUMERICAL', 'ORDINAL', 'NOMINAL'


class Data:
    pass


def names(rng, prefix, k):
    style = rng.integers(0, 6)
    out = []
    for i in range(k):
        n = '%s%d' % (prefix, i)
        if style == 1:
            n = 'a %s %d' % (prefix, i)
        elif style == 2:
            n = '%s-%d_%s' % (prefix, i, 'äöß'[i % 3])
        elif style == 3:
            n = "%s'%d" % (prefix, i)
        elif style == 4:
            n = '%s(%d),x' % (prefix, i)
        out.append(n)
    return out


def dataset(rng, n=None, ids=True, missing=True, labels=True, min_rows=1):
    """If `ids` is set, the first feature is numerical and has a different value for each example."""
    d = Data()
    d.n = n = int(rng.integers(min_rows, 45)) if n is None else n
    f = int(rng.integers(1, 8))
    d.q = int(rng.integers(1, 6))
    d.types, d.values = [], []
    cols = []
    zero = float(rng.choice([0.0, 0.3, 0.9]))
    for j in range(f):
        t = NUM if (ids and j == 0) else str(rng.choice([NUM, NUM, ORD, NOM]))
        v = None
        if ids and j == 0:
            c = (rng.permutation(n) + 1) * 0.25
        elif t == NUM:
            c = np.round(rng.normal(size=n) * 10.0**int(rng.integers(-2, 3)), 4)
        elif t == ORD:
            c = rng.integers(0, 6, size=n).astype(float)
        else:
            k = int(rng.integers(1, 5))
            v = ['v%d' % i for i in range(k)] if rng.random() < 0.6 else ['a b %d' % i for i in range(k)]
            c = rng.integers(0, k, size=n).astype(float)
        if not (ids and j == 0):
            c = np.where(rng.random(n) < zero, 0.0, c)
            if missing and rng.random() < 0.2:
                c = np.where(rng.random(n) < 0.2, np.nan, c)
        d.types.append(t)
        d.values.append(v)
        cols.append(c)
    d.x = np.array(cols).T.reshape(n, f).astype(np.float32)
    d.y = (rng.random((n, d.q)) < rng.choice([0.05, 0.4, 0.8])).astype(np.uint8)
    d.start = bool(rng.random() < 0.3)
    d.sparse = bool(rng.random() < 0.5)
    if not d.sparse:  # known finding K18: missing values of dense files are loaded as zeros
        d.x = np.nan_to_num(d.x)
    d.fnames = names(rng, 'X', f)
    d.onames = names(rng, 'y', d.q)
    return d


def quote(s):
    if any(ch in s for ch in ' ,{}\'"%()') or not s.isascii():
        return '"' + s.replace('"', '\\"') + '"' if "'" in s else "'" + s + "'"
    return s


def arff(d, rows, x=None, y=None, relation='data set'):
    x = d.x if x is None else x
    y = d.y if y is None else y
    atts = []
    for nm, t, v in zip(d.fnames, d.types, d.values):
        decl = {NUM: 'numeric', ORD: 'integer'}.get(t) or '{' + ','.join(quote(w) for w in v) + '}'
        atts.append('@attribute %s %s' % (quote(nm), decl))
    outs = ['@attribute %s {0,1}' % quote(nm) for nm in d.onames]
    head = outs + atts if d.start else atts + outs
    lines = ["@relation '%s'" % relation, ''] + head + ['', '@data']

    def cell(i, j):
        w = x[i, j]
        if np.isnan(w):
            return '?'
        if d.types[j] == NOM:
            return quote(d.values[j][int(w)])
        if d.types[j] == ORD:
            return str(int(w))
        return repr(float(w))

    for i in rows:
        fs = [cell(i, j) for j in range(x.shape[1])]
        ls = [str(int(w)) for w in y[i]]
        vals = ls + fs if d.start else fs + ls
        raw = list(y[i]) + list(x[i]) if d.start else list(x[i]) + list(y[i])
        if d.sparse:
            lines.append('{' + ', '.join('%d %s' % (k, w) for k, w in enumerate(vals) if raw[k] != 0) + '}')
        else:
            lines.append(','.join(vals))
    return '\n'.join(lines) + '\n'


def xml(d, rng=None):
    """A Mulan XML file; the labels are randomly organized in a hierarchy, if `rng` is given."""
    from xml.sax.saxutils import quoteattr
    text = '<?xml version="1.0" encoding="utf-8"?>\n<labels xmlns="http://mulan.sourceforge.net/labels">'
    depth = 0
    for i, nm in enumerate(d.onames):
        if rng is not None and i and rng.random() < 0.5:
            text += '\n' + '  ' * (depth + 1)
            depth += 1
        else:
            close = 1 + (int(rng.integers(0, depth + 1)) if rng is not None else depth) if i else 0
            text += '</label>' * close
            depth -= max(close - 1, 0)
        text += '<label name=%s>' % quoteattr(nm)
    return text + '</label>' * (depth + 1 if len(d.onames) else 0) + '</labels>\n'


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(text)
