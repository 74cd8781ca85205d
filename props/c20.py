"""C20: catalogue containers."""
import os
import numpy as np
import fitsio
from hypothesis import strategies as st

from vp.core import T, require
from redmapper.catalog import Catalog, Entry
from redmapper.galaxy import GalaxyCatalog
from redmapper.cluster import ClusterCatalog, cluster_dtype_base
from redmapper.utilities import read_members

ASSUMPTIONS = ['column names differ in more than case and are not names of methods', 'a file written again without clobber keeps its first table']

NAMES = ['RA', 'dec', 'Z', 'mem_match_id', 'LAMBDA', 'zred', 'Flag', 'mag', 'name', 'chisq', 'Pz', 'w_1']
KINDS = ['f8', 'f4', 'i4', 'i8', 'i2', 'S6', 'U5', ('f4', 3), ('f8', (2, 2)), ('i4', 2)]


def dt(cols):
    return [(n,) + (KINDS[k] if isinstance(KINDS[k], tuple) else (KINDS[k],)) for n, k in cols]


def fill(n, dtype, rs):
    a = np.zeros(n, dtype=dtype)
    for nm in a.dtype.names:
        k = a[nm].dtype.kind
        if k == 'f':
            a[nm] = rs.normal(size=a[nm].shape)*10.0**rs.randint(-3, 8)
        elif k == 'i':
            a[nm] = rs.randint(-20000, 20000, a[nm].shape)
        else:
            a[nm] = rs.choice(['a', 'bc', 'xyz12', 'Q'], a[nm].shape)
    return a


def model_of(a):
    return {n.lower(): np.array(a[n], copy=True) for n in a.dtype.names}


def compare(cat, m, n, what, order=None):
    names = list(cat.dtype.names)
    require(sorted(names) == sorted(m), '%s: columns %s, expected %s', what, names, sorted(m))
    if order is not None:
        require(names == order, '%s: column order %s, expected %s', what, names, order)
    require(cat.size == n and len(cat) == n, '%s: %d rows, expected %d', what, cat.size, n)
    for k, v in m.items():
        for nm in (k, k.upper(), k.capitalize()):
            if nm in ('size',):
                continue
            got = getattr(cat, nm)
            require(got.shape == v.shape and np.array_equal(got, v), '%s: column %s', what, nm)


def check_ops(case):
    rs = np.random.RandomState(case['seed'])
    cls = {'catalog': Catalog, 'galaxies': GalaxyCatalog}[case['cls']]
    cols = case['cols']
    a = fill(case['n'], dt(cols), rs)
    m, n = model_of(a), case['n']
    order = [c[0].lower() for c in cols]
    cat = cls(a) if case['n'] or True else None
    compare(cat, m, n, 'construction', order)
    used = set(order)
    did = 0
    for op, x, y in case['ops']:
        what = op
        if op == 'select' and n:
            kind = x % 4
            if kind == 0:
                idx = rs.randint(0, n, size=y % (n + 3))
            elif kind == 1:
                idx = rs.uniform(size=n) < 0.5
            elif kind == 2:
                idx = slice(y % n, None, 1 + x % 2)
            else:
                idx = np.argsort(rs.uniform(size=n))
            old, oldm, on = cat, {k: v.copy() for k, v in m.items()}, n
            cat = cat[idx]
            m = {k: v[idx].copy() for k, v in m.items()}
            n = next(iter(m.values())).shape[0]
            require(type(cat) is cls, 'selection changes the type')
            compare(old, oldm, on, 'table selected from')
        elif op == 'append':
            b = fill(x % 4, [(c,) + ((m[c].dtype, m[c].shape[1:]) if m[c].ndim > 1 else (m[c].dtype,)) for c in order], rs)
            mb = model_of(b)
            cat.append(cls(b) if y % 2 else b)
            m = {k: np.concatenate([v, mb[k]]) for k, v in m.items()}
            n += x % 4
        elif op == 'extend':
            k2 = x % 4
            cat.extend(k2)
            m = {k: np.concatenate([v, np.zeros((k2,) + v.shape[1:], dtype=v.dtype)]) for k, v in m.items()}
            n += k2
        elif op == 'add':
            new = [c for c in NAMES if c.lower() not in used][:1 + x % 2]
            if not new:
                continue
            nd = dt([(c, (y + i) % len(KINDS)) for i, c in enumerate(new)])
            cat.add_fields(nd)
            z = np.zeros(n, dtype=nd)
            for c in new:
                m[c.lower()] = z[c].copy()
                used.add(c.lower())
                order.append(c.lower())
        elif op == 'dup':
            before = list(cat.dtype.names)
            try:
                cat.add_fields([(order[x % len(order)].upper(), 'f4')])
            except ValueError:
                pass
            else:
                require(False, 'a column was added twice')
            require(list(cat.dtype.names) == before, 'a failed addition changed the table')
        elif op == 'set':
            c = order[x % len(order)]
            v = fill(n, [('v',) + ((m[c].dtype, m[c].shape[1:]) if m[c].ndim > 1 else (m[c].dtype,))], rs)['v']
            nm = [c, c.upper(), c.capitalize()][y % 3]
            if m[c].dtype.kind in 'fi' and y % 5 == 0:
                v = np.full(m[c].shape, 7, dtype=m[c].dtype)
                setattr(cat, nm, 7)
            else:
                setattr(cat, nm, v)
            m[c] = np.array(v, copy=True)
        elif op == 'row' and n:
            i = x % n
            e = cat[i]
            for c in order:
                require(np.array_equal(getattr(e, c.upper()), m[c][i]), 'row %d column %s', i, c)
            # a row is a record of its table: changing it changes the table
            c = order[y % len(order)]
            if m[c].dtype.kind in 'fi':
                setattr(e, c.capitalize(), -3)
                m[c][i] = -3
                require(np.all(getattr(e, c) == -3), 'value set on a row')
        elif op == 'cell' and n:
            c = order[y % len(order)]
            if m[c].dtype.kind in 'fi':
                getattr(cat, c.upper())[x % n] = 11
                m[c][x % n] = 11
        elif op == 'rows' and n:
            i = x % n
            v = fill(1, cat.dtype, rs)
            cat[i] = v[0]
            for c in order:
                m[c][i] = v[c][0]
        elif op == 'iter':
            k = 0
            for e in cat:
                if k < n:
                    require(np.array_equal(getattr(e, order[0]), m[order[0]][k]), 'iteration')
                k += 1
            require(k == n, 'iterating %d rows gave %d', n, k)
        else:
            continue
        did += 1
        compare(cat, m, n, what, order)
        require(all(c in dir(cat) for c in order), 'dir() lacks columns')
    return 'ops' if did else None


def check_fits(case):
    rs = np.random.RandomState(case['seed'])
    a = fill(case['n'], dt(case['cols']), rs)
    m = model_of(a)
    order = [c[0].lower() for c in case['cols']]
    cat = Catalog(a)
    n = case['n']
    sel = None
    if case['sel'] == 'index':
        sel = rs.randint(0, n, size=case['k'] % (n + 1)) if n else np.zeros(0, 'i8')
    elif case['sel'] == 'mask':
        sel = rs.uniform(size=n) < 0.5
    hdr = fitsio.FITSHDR()
    hdr['TESTKEY'], hdr['PIVOT'] = case['seed'], 30.5
    cat.to_fits_file('t.fit', header=hdr if case['hdr'] else None, extname='TAB' if case['ext'] else None, indices=sel)
    want = m if sel is None else {k: v[sel] for k, v in m.items()}
    nw = next(iter(want.values())).shape[0]

    def readback(f, w, k):
        b = Catalog.from_fits_file(f)
        require(list(b.dtype.names) == order and b.size == k, 'read back %d rows of columns %s, wrote %d of %s', b.size, b.dtype.names, k, order)
        for c in order:
            v = w[c]
            x = getattr(b, c)
            if v.dtype.kind in 'SU':
                x, v = np.char.strip(x.astype('U')), v.astype('U')
            require(x.shape == v.shape and np.array_equal(x, v) and x.dtype.kind == v.dtype.kind, 'column %s read back differently', c)
            if v.dtype.kind in 'fi':
                require(x.dtype.itemsize == v.dtype.itemsize, 'column %s changed its precision', c)
        return b
    readback('t.fit', want, nw)
    h = fitsio.read_header('t.fit', ext=1)
    if case['hdr']:
        require(h['TESTKEY'] == case['seed'] and h['PIVOT'] == 30.5, 'header')
    if case['ext']:
        require(h['EXTNAME'].strip() == 'TAB', 'extension name')
    compare(cat, m, n, 'table after writing', order)
    if nw > 1:
        rows = np.flatnonzero(rs.uniform(size=nw) < 0.5)
        if rows.size:
            b = Catalog.from_fits_file('t.fit', rows=rows)
            require(b.size == rows.size and all(np.array_equal(getattr(b, c), want[c][rows]) for c in order if want[c].dtype.kind in 'fi'), 'reading selected rows')
    b2 = fill(3, dt(case['cols']), rs)
    m2 = model_of(b2)
    c2 = Catalog(b2)
    if case['again'] == 'keep':
        try:
            c2.to_fits_file('t.fit')
        except (IOError, OSError, ValueError):
            pass
        readback('t.fit', want, nw)
    elif case['again'] == 'clobber':
        c2.to_fits_file('t.fit', clobber=True)
        readback('t.fit', m2, 3)
        require(len(fitsio.FITS('t.fit')) == 2, 'clobbered file has extra tables')
    if n:
        i = case['k'] % n
        e = cat[i] if case['one'] else Entry(a[i: i + 1].copy())
        e.to_fits_file('e.fit', clobber=True)
        readback('e.fit', {k: v[i: i + 1] for k, v in m.items()}, 1)
        e2 = Entry.from_fits_file('e.fit')
        for c in order:
            if m[c].dtype.kind in 'fi':
                require(np.array_equal(getattr(e2, c), m[c][i]), 'entry column %s', c)
        e2.add_fields([('extra_col', 'f4', 3)])
        e2.extra_col = [1, 2, 3]
        require(np.array_equal(e2.EXTRA_COL, [1, 2, 3]) and all(np.array_equal(getattr(e2, c), m[c][i]) for c in order if m[c].dtype.kind in 'fi'), 'entry with added column')
    for bad in (0, 2):
        try:
            Entry(fill(bad, dt(case['cols']), rs))
        except ValueError:
            continue
        require(False, 'an entry of %d rows', bad)
    return True


def check_merge(case):
    """Several arrays side by side; cluster catalogues gain their missing columns."""
    rs = np.random.RandomState(case['seed'])
    cols = case['cols']
    k = max(1, len(cols)//2)
    a, b = fill(case['n'], dt(cols[:k]), rs), fill(case['n'], dt(cols[k:]) or [('other', 'f4')], rs)
    m = dict(model_of(a), **model_of(b))
    cat = Catalog(a, b)
    compare(cat, m, case['n'], 'merged table')
    try:
        Catalog(fill(case['n'] + 1, dt(cols[:1]), rs), fill(case['n'], [('q', 'f4')], rs))
        require(False, 'arrays of different length were merged')
    except ValueError:
        pass
    c = fill(case['n'], [(x.upper(), 'f8') for x in ('ra', 'dec')] + [('LAMBDA', 'f4'), ('Z', 'f4'), ('MYCOL', 'i4')], rs)
    cm = model_of(c)
    cc = ClusterCatalog(c)
    need = {x[0].lower() for x in cluster_dtype_base}
    require(need <= set(cc.dtype.names), 'missing cluster columns')
    for x in cm:
        require(np.array_equal(getattr(cc, x), cm[x]), 'cluster column %s changed', x)
    for x in need - set(cm):
        require(not np.any(getattr(cc, x)), 'new cluster column %s is not zero', x)
    if case['n']:
        idx = rs.permutation(case['n'])[:max(1, case['n']//2)]
        sub = cc[idx]
        require(type(sub) is ClusterCatalog and np.array_equal(sub.mycol, cm['mycol'][idx]), 'selected clusters')
        i = int(idx[0])
        cl = cc[i]
        require(cl.ra == cm['ra'][i] and cl.Lambda == cm['lambda'][i], 'cluster of the catalogue')
        cl.Lambda = 55.5
        require(cc.Lambda[i] == 55.5 and np.all(np.delete(cc.Lambda, i) == np.delete(cm['lambda'], i)), 'changing a cluster changes its own row only')
    return True


def check_members(case):
    rs = np.random.RandomState(case['seed'])
    base = os.path.join(os.getcwd(), case['dir'], case['name']) if case['dir'] else case['name']
    if case['dir']:
        os.makedirs(case['dir'], exist_ok=True)
    m = fill(4, [('MEM_MATCH_ID', 'i4'), ('RA', 'f8'), ('P', 'f4')], rs)
    fitsio.write(base + '_members.fit', m)
    fitsio.write(base + '.fit', m[:1])
    out = read_members(base + '.fit')
    require(out.size == 4 and np.array_equal(out.mem_match_id, m['MEM_MATCH_ID']) and np.array_equal(out.ra, m['RA']), 'members')
    try:
        read_members(base + '_other.fit')
    except RuntimeError:
        return case['name'][-1] in '.fit' or 'other'
    require(False, 'members of a catalogue without members')


cols = st.lists(st.tuples(st.sampled_from(NAMES), st.integers(0, len(KINDS) - 1)), min_size=1, max_size=8, unique_by=lambda x: x[0].lower())
base = dict(seed=st.integers(1, 2**20), n=st.integers(0, 12), cols=cols)
ops = st.fixed_dictionaries(dict(base, cls=st.sampled_from(['catalog', 'galaxies']), ops=st.lists(st.tuples(
    st.sampled_from(['select', 'append', 'extend', 'add', 'dup', 'set', 'row', 'cell', 'rows', 'iter']), st.integers(0, 50), st.integers(0, 50)), min_size=1, max_size=8)))
fits = st.fixed_dictionaries(dict(base, n=st.integers(1, 12), sel=st.sampled_from([None, 'index', 'mask']), k=st.integers(1, 20), hdr=st.booleans(), ext=st.booleans(),
                                  again=st.sampled_from([None, 'keep', 'clobber']), one=st.booleans()))
members = st.fixed_dictionaries(dict(seed=st.integers(1, 2**20), dir=st.sampled_from(['', 'sub', 'sub.fit', 'a_fit/tif']), name=st.text('abfit._0', min_size=1, max_size=8).filter(lambda s: s.strip('.') and not s.startswith('.'))))

TESTS = [T('operations', ops, check_ops, quick=500, thorough=40000, rule='at least one operation applied'),
         T('fits', fits, check_fits, quick=300, thorough=15000, rule='always'),
         T('merge', st.fixed_dictionaries(base), check_merge, quick=120, thorough=4000, rule='always'),
         T('members', members, check_members, quick=80, thorough=2000, rule='always')]
