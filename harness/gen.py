"""Generators of abstract programs: sequences of calls of the library's public interface.

A program is {"id", "calls": [...]} (see exec.py for the calls).  Everything is drawn from
the random.Random that is passed in; nothing is judged here.  The programs stay inside the
scope of the properties (see DESIGN.md, "Scope").
"""
import random

MARKTYPES = 'none solid broken solid_solid solid_broken broken_solid broken_broken botts_dots grass curb custom edge'.split()
LANETYPES = ('none driving stop shoulder biking sidewalk border restricted parking bidirectional median special1 special2 '
             'special3 roadWorks tram rail entry exit offRamp onRamp connectingRamp bus taxi HOV mwyEntry mwyExit').split()
COLORS = 'standard blue green red white yellow orange'.split()
OBJTYPES = ('none obstacle pole tree vegetation barrier building parkingSpace patch railing trafficIsland crosswalk '
            'streetLamp gantry soundBarrier roadMark').split()
NAMES = ['a', 'v1.2', 'a.xodr', 'x-y_z', 'town7', 'Main Street', 'x<y & "z"', 'it\'s', 'a  b', 'Stra\u00dfe', '\u00c5ngstr\u00f6m \u9053\u8def', 'emoji \U0001f6a6', '-', '0', 'None', ' lead', 'tail ',
         'a%20b', '%s', '{0}', '&amp;', 'cafe\u0301', 'x\u00a0y', '\u00a0', 'TOWN7', 'n' * 130, '1e3', '1.0', 'a\\b', '#', 'nan', '\u202etown', "''"]
PI = 314159265


def interleave(rng, seqs):
    """random merge of sequences, each keeping its order"""
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        s = rng.choice(seqs)
        k = rng.choice((1, 1, 1, 2, 4, 50))
        out += s[:k]
        del s[:k]
        seqs = [x for x in seqs if x]
    return out


class G(object):
    def __init__(self, rng, mark=''):
        self.r = rng
        self.n = 0
        self.mk = mark                           # part of every handle
        self.common_geos, self.common_marks = [], []
        self.centre = {}
        self.wide = rng.choice([0, 0.3, 1, 1])
        self.typed = rng.choice([0, 0.1, 0.5, 0.5])

    def h(self, p):
        self.n += 1
        return '%s%s%d' % (p, self.mk, self.n)

    def maybe(self, p, f, other='~'):
        return f() if self.r.random() < p else other

    # ---- numbers
    def length(self):
        r = self.r
        return r.choice([r.randrange(1, 2000) * 1000, r.randrange(1, 300) * 10000, r.randrange(20000, 3000000)])

    def long(self):
        """lengths of lines: now and then beyond a kilometre"""
        r = self.r
        return self.length() if r.random() < 0.9 else r.randrange(3000000, 16000000)

    def radius(self):
        r = self.r
        return r.choice([-1, 1]) * r.choice([50000, 100000, 10000 * r.randrange(3, 400), r.randrange(40000, 4000000)])

    def angle(self, lo=2000000, hi=320000000):
        r = self.r
        return r.choice([PI // 2, PI // 3, PI // 4, PI, r.randrange(lo, hi), r.randrange(lo, hi)])

    def coord(self):
        r = self.r
        return r.choice([0, r.randrange(-300, 300) * 10000, r.randrange(-10000000, 10000000), r.randrange(-400000000, 400000000)])

    def head(self):
        r = self.r
        return r.choice([0, PI // 2, -PI // 2, PI, r.randrange(-30, 31) * 10000000, r.randrange(-PI, PI), r.randrange(-PI, PI), r.randrange(-900000000, 900000000)])

    def real(self):
        """a number whose exact text matters"""
        r = self.r
        return r.choice([0, 10000, 'i:%d' % r.randrange(0, 100), 'f:%r' % (r.randrange(0, 2000) / 100.0),
                         'f:%r' % (r.random() * 10 ** r.randrange(-3, 4)), 'f:%r' % -r.random(), 'f:%r' % -(r.randrange(4, 200) / 4.0), r.randrange(1, 100000) * 100,
                         r.choice(['f:1e-07', 'f:-3.5e-06', 'f:1e+16', 'f:123456.789012', 'n:0.35', 'n:%r' % r.random(), 'm:7', 'm:-2', 'i:-3', 'i:1000000'])])

    def pos(self):
        r = self.r
        return r.choice([10000, 'i:%d' % r.randrange(1, 9), 'f:%r' % (r.randrange(1, 2000) / 100.0), 'f:%r' % r.random(), r.choice(['n:3.25', 'm:3', 'f:1e-05'])])

    def ident(self):
        r = self.r
        return r.choice([str(r.randrange(0, 12)), str(r.randrange(0, 4000)), 'road%d' % r.randrange(20), 'a b', '-7', str(r.randrange(10 ** 9)), '007', 'R\u00f6d & co', '1.50', 'x' * 40, str(r.randrange(2 ** 33))])

    # ---- geometries
    def geo(self, h=None, kinds='line arc spiral poly', maxturn=500000000):
        r = self.r
        h = h or self.h('g')
        k = r.choice(kinds.split())
        if k == 'line':
            return h, [dict(op='Line', h=h, len=self.long())]
        if k == 'arc':
            rad = self.radius()
            if r.random() < 0.04:
                return h, [dict(op='Arc', h=h, r=0, flat=r.choice([-1, 1]) * r.randrange(11, 21), len=self.length(), ang='~')]
            if maxturn >= 500000000 and r.random() < 0.08:      # more than once around
                a = r.randrange(500000000, 1100000000)
                if r.random() < 0.5 or abs(rad) > 1000000:
                    return h, [dict(op='Arc', h=h, r=max(-1000000, min(1000000, rad)), len='~', ang=r.choice([-1, 1]) * a)]
                return h, [dict(op='Arc', h=h, r=rad, len=int(abs(rad) * (a / 1e8)), ang='~')]
            if r.random() < 0.5:
                return h, [dict(op='Arc', h=h, r=rad, len='~', ang=r.choice([-1, 1]) * self.angle())]
            ln = max(1000, int(abs(rad) * r.uniform(0.02, min(4.0, maxturn / 1e8))))
            return h, [dict(op='Arc', h=h, r=rad, len=ln, ang='~')]
        if k == 'spiral':
            noise = {}
            while True:
                r0, r1 = r.choice([0, self.radius()]), self.radius()
                if r.random() < 0.3:
                    r0, r1 = r1, r0
                x = r.random()
                if x < 0.08:
                    r0 = r1 or r0
                    r1 = r0
                    if r.random() < 0.6:
                        noise = dict(noise=r.randrange(10, 17))
                elif x < 0.16:                           # nearly an arc
                    r0 = r1 or r0
                    r1 = r0 + int(r0 * r.choice([-1, 1]) * 10 ** r.uniform(-4, -1))
                    if abs(r0) < 2000000 and r.random() < 0.7:
                        return h, [dict(op='Spiral', h=h, r0=r0, r1=r1, len=int(abs(r0) * r.uniform(1, 6)), ang='~', rl='~')]
                elif x < 0.2:
                    return h, [dict(op='Spiral', h=h, r0=0, r1=0, len=self.length(), ang='~', rl='~')]
                if r0 == -r1 or (r0 and r1 and abs(1.0 / r0 + 1.0 / r1) * 300000 < 0.2):
                    continue
                break
            k0, k1 = (1.0 / r0 if r0 else 0), (1.0 / r1 if r1 else 0)
            mode = r.choice(['len', 'ang', 'cdot'])
            if mode == 'ang':
                a = r.choice([-1, 1]) * r.randrange(2000000, 150000000)
                ln = 2 * abs(a) / 1e8 / abs(k0 + k1)
                if ln * max(abs(k0), abs(k1)) < 6 and ln < 2e7:
                    return h, [dict(op='Spiral', h=h, r0=r0, r1=r1, len='~', ang=a, rl='~', **noise)]
                mode = 'len'
            kk = max(abs(k0), abs(k1))
            ln = max(1000, int((r.uniform(0.05, 2.5) if r.random() < 0.93 else r.uniform(4, 9)) / kk))
            if mode == 'cdot' and k0 != k1:
                return h, [dict(op='Spiral', h=h, r0=r0, r1=r1, len='~', ang='~', rl=ln)]
            return h, [dict(op='Spiral', h=h, r0=r0, r1=r1, len=ln, ang='~', rl='~', **noise)]
        ln = max(20000, self.length())
        v = [0, 0, int(ln * r.uniform(-0.5, 0.5)), int(ln * r.uniform(-0.3, 0.3))]
        if r.random() < 0.35:
            u = [0, ln, 0, 0]
            if r.random() < 0.4:
                u[2:] = [int(ln * r.uniform(-0.02, 0.02)), int(ln * r.uniform(-0.02, 0.02))]
            return h, [dict(op='Poly', h=h, pr='arcLength', len=ln, u=u, v=[0, 0, v[2] // 20, v[3] // 20])]
        u = [0, ln, int(ln * r.uniform(-0.2, 0.3)), int(ln * r.uniform(-0.1, 0.2))]
        if r.random() < 0.15:
            u[0], v[0] = int(ln * r.uniform(-0.2, 0.2)), int(ln * r.uniform(-0.2, 0.2))
        if r.random() < 0.2:                     # turns by more than a right angle
            u[2:], v[2:] = [-int(ln * r.uniform(0.55, 1.1)), 0], [r.choice([-1, 1]) * int(ln * r.uniform(0.4, 1.2)), 0]
        c = dict(op='Poly', h=h, pr='normalized', len='~', u=u, v=v)
        if r.random() < 0.3:
            c['explicit'] = True
        return h, [c]

    def pose(self):
        if self.r.random() < 0.12:
            return dict(x=0, y=0, hd=0)
        return dict(x=self.coord(), y=self.coord(), hd=self.head())

    # ---- road marks, lanes
    def mark(self, h=None, p=0.4, simple=False):
        r = self.r
        h = h or self.h('m')
        c = dict(op='Mark', h=h, type=r.choice(MARKTYPES))
        for k in ('width', 'length', 'space', 'toffset', 'soffset', 'height'):
            c[k] = self.maybe(0.1 if simple else p, self.real)
        c['rule'] = self.maybe(p / 2, lambda: r.choice(['no_passing', 'caution', 'none']))
        c['color'] = self.maybe(p, lambda: r.choice(COLORS))
        c['weight'] = self.maybe(p, lambda: r.choice(['standard', 'bold']))
        c['change'] = self.maybe(p, lambda: r.choice(['increase', 'decrease', 'both', 'none']))
        return h, [c]

    def lane(self, h=None, rich=True, marks=True):
        r = self.r
        h = h or self.h('l')
        if not rich:
            out = [dict(op='Lane', h=h, type='~', a=30000, b='~', c='~', d='~', so='~')]
            if r.random() < 0.1:                 # a lane that opens, closes or is not there
                out[0].update(a=r.choice([0, 'i:0', 30000]), b=r.choice(['~', 'f:0.05', 'f:-0.05']))
            elif r.random() < self.wide:         # nothing depends on its width either
                out[0].update(a=r.choice([20000, 25000, 35000, 'f:3.75', 40000, 'i:6']))
            if r.random() < self.typed:          # links do not depend on the type of a lane
                out[0].update(type=r.choice(r.choice([LANETYPES, ['none', 'sidewalk', 'shoulder', 'border', 'biking', 'restricted']])))
        elif r.random() < 0.15:
            m, ms = self.mark() if r.random() < 0.5 else ('~', [])
            return h, ms + [dict(op='StdLane', h=h, a=self.maybe(0.6, self.pos), m=m)]
        else:
            out = [dict(op='Lane', h=h, type=self.maybe(0.6, lambda: r.choice(LANETYPES)), a=self.maybe(0.8, self.pos),
                        b=self.maybe(0.15, self.real), c=self.maybe(0.15, self.real), d=self.maybe(0.15, self.real), so=self.maybe(0.2, self.real))]
        if marks and r.random() < 0.4:
            m, ms = (r.choice(self.common_marks), []) if self.common_marks and r.random() < 0.6 else self.mark(simple=r.random() < 0.5)
            out += ms + [dict(op='LMark', l=h, m=m)]
        if rich and r.random() < 0.06:
            out.append(dict(op='LLink', l=h, tag=r.choice(['predecessor', 'successor']), id=r.randrange(-3, 4)))
        return h, out

    def section(self, nl, nr, s=0, h=None, rich=True, widths=None):
        """calls that build a section; returns handle, calls, left handles, right handles"""
        r = self.r
        h = h or self.h('s')
        c, cc = self.lane(rich=rich and widths is None)
        self.centre[h] = c
        seqs, left, right = [], [], []
        for side, n, acc in (('AddL', nl, left), ('AddR', nr, right)):
            q = []
            for _ in range(n):
                if widths is not None:
                    l = self.h('l')
                    lc = [dict(op='Lane', h=l, type=self.maybe(0.4, lambda: r.choice(LANETYPES)), a=r.choice(widths), b='~', c='~', d='~', so='~')]
                else:
                    l, lc = self.lane(rich=rich)
                acc.append(l)
                q += lc + [dict(op=side, s=h, l=l)]
            seqs.append(q)
        return h, cc + [dict(op='Sec', h=h, s=s, c=c)] + interleave(r, seqs), left, right

    def lanes(self, counts, rich=True, length=None, widths=None, linkers=False):
        """calls for a Lanes object with the given [(nl, nr), ...]"""
        r = self.r
        h = self.h('n')
        out = [dict(op='Lanes', h=h)]
        secs, s = [], 0
        if r.random() < 0.1:
            s = r.randrange(1, 9) * 1000
        for nl, nr in counts:
            sh, sc, left, right = self.section(nl, nr, s, rich=rich, widths=widths)
            secs.append((sh, left, right))
            out += sc
            s += r.randrange(1, 2000) * 100 if r.random() < 0.95 else 0
        if linkers and len(secs) > 1:
            out += self.link_sections(h, secs)
        else:
            out += [dict(op='AddSec', n=h, s=sh, mode='none', ks=[]) for sh, _, _ in secs]
        return h, out

    def link_sections(self, h, secs, dense=True):
        """linkers between neighbouring sections, handed over in any combination"""
        r = self.r
        ks, pairs, done = [], [], set()
        out = []
        for _ in range(r.randrange(1, 4)):
            k = self.h('k')
            ks.append(k)
            out.append(dict(op='Linker', h=k))
        todo = []
        for (_, l0, r0), (_, l1, r1) in zip(secs, secs[1:]):
            for a, b in ((l0, l1), (r0, r1)):
                if not a or not b:
                    continue
                if r.random() < 0.7:
                    todo += list(zip(a, b))
                for _ in range(r.choice([0, 0, 1, 2])):
                    todo.append((r.choice(a), r.choice(b)))
        # centre lanes are lanes too
        for (h0, l0, r0), (h1, l1, r1) in zip(secs, secs[1:]):
            if r.random() < 0.15:
                todo.append((self.centre[h0], self.centre[h1]))
            if r.random() < 0.05 and l0 + r0:
                todo.append((r.choice(l0 + r0), self.centre[h1]))
        for p, s in todo:
            if (p, s) not in done and r.random() < 0.9:
                done.add((p, s))
                pairs.append(dict(op='LPair', k=r.choice(ks), p=p, s=s))
        adds = []
        for sh, _, _ in secs:
            m = r.choice(['none', 'one', 'one', 'list', 'list'])
            use = [] if m == 'none' else [r.choice(ks)] if m == 'one' else [r.choice(ks) for _ in range(r.randrange(0, 4))]
            adds.append(dict(op='AddSec', n=h, s=sh, mode=m, ks=use))
        if r.random() < 0.5:
            return out + pairs + adds
        return out + interleave(r, [pairs, adds])

    # ---- signals and objects
    def signal(self, h=None, ids=None):
        r = self.r
        h = h or self.h('S')
        c = dict(op='Sig', h=h, s=self.real(), t=self.real(), cnt=r.choice(['de', 'se', 'USA', 'DE']), type=r.choice(['274', '-1', 'x y']))
        c['id'] = self.maybe(0.5, lambda: r.choice(ids or ['0', '1', '2', '3', '4', '7', 's1', 'sig a', '11', '01', 'S1', 's1', '1.0', '-1', 'S1']))
        c['sub'] = self.maybe(0.3, lambda: r.choice(['-1', '50', 'none', '~~']))
        c['name'] = self.maybe(0.3, lambda: r.choice(NAMES + ['', c['type'], str(c['id'])]))
        c['dyn'] = self.maybe(0.4, lambda: r.choice(['yes', 'no']))
        c['ori'] = self.maybe(0.5, lambda: r.choice(['positive', 'negative', 'none']))
        v = r.random() < 0.3
        c['value'], c['unit'] = (self.real(), r.choice(['km/h', 'm', '~'])) if v else ('~', '~')
        for k in ('zo', 'ho', 'pitch', 'roll', 'height', 'width'):
            c[k] = self.maybe(0.3, self.real)
        if r.random() < 0.3:
            c['txt'] = True
        return h, [c]

    def object(self, h=None, ids=None):
        r = self.r
        h = h or self.h('O')
        c = dict(op='Obj', h=h, s=self.real(), t=self.real())
        c['id'] = self.maybe(0.5, lambda: r.choice(ids or ['0', '1', '2', '3', '4', '7', 'o1', 'obj a', '11', '01', 'O1', 'o1', '1.0', '-1', 'O1']))
        c['sub'] = self.maybe(0.3, lambda: r.choice(['-1', 'oak', 'none']))
        c['name'] = self.maybe(0.3, lambda: r.choice(NAMES + ['', str(c['id'])]))
        c['dyn'] = self.maybe(0.4, lambda: r.choice(['yes', 'no']))
        c['ori'] = self.maybe(0.5, lambda: r.choice(['positive', 'negative', 'none']))
        c['typeE'] = r.random() < 0.8
        c['type'] = self.maybe(0.8, lambda: r.choice(OBJTYPES) if c['typeE'] else r.choice(['fence', 'x y']))
        for k in ('zo', 'hdg', 'pitch', 'roll', 'vl'):
            c[k] = self.maybe(0.3, self.real)
        for k in ('width', 'length', 'height', 'radius'):
            c[k] = self.maybe(0.35, self.real)
        if r.random() < 0.3:
            c['txt'] = True
        return h, [c]

    def repeat(self, o):
        r = self.r
        p = r.choice([0.1, 0.5, 0.9])
        ks = 's tStart tEnd heightStart heightEnd zOffsetStart zOffsetEnd widthStart widthEnd lengthStart lengthEnd radiusStart radiusEnd'.split()
        return dict(op='Rep', o=o, len=self.real(), dist=self.real(), a=dict((k, self.real()) for k in ks if r.random() < p))

    def add_things(self, roads, nsig=2, nobj=2, reps=True):
        """signals and objects added to the given roads, singly and in lists"""
        r = self.r
        out = []
        for make, op, n in ((self.signal, 'AddSig', nsig), (self.object, 'AddObj', nobj)):
            xs, seq = [], []
            for _ in range(r.randrange(0, n + 1)):
                h, c = make()
                if xs and r.random() < 0.12:            # like the one before it
                    c = [dict(last, h=h) if x is c[0] else x for x in c]
                    if r.random() < 0.5:
                        c[0]['id'] = '~'
                last = c[0]
                seq += c
                if op == 'AddObj' and reps:
                    for _ in range(r.choice([0, 0, 1, 2]) if r.random() < 0.95 else 6):
                        seq.append(self.repeat(h))
                xs.append(h)
            while xs:
                k = r.choice([1, 1, 2, 3])
                seq.append(dict(op=op, r=r.choice(roads), xs=xs[:k], mode='one' if k == 1 and r.random() < 0.7 else 'list'))
                if op == 'AddObj' and reps and r.random() < 0.2:
                    seq.append(self.repeat(xs[0]))
                xs = xs[k:]
            out.append(seq)
        return interleave(r, out)

    # ---- whole networks
    def road(self, h, rid, counts, conn='-1', fixed=False, rich=False, ngeo=None, widths=None, linkers=False, kinds=None, named=False):
        r = self.r
        pv = h + 'P'
        out = []
        hd = None
        if fixed:
            p = self.pose()
            hd = p['hd'] if r.random() < 0.1 else None
            out.append(dict(op='Plan', h=pv, x=p['x'], y=p['y'], hd=p['hd']))
        else:
            out.append(dict(op='Plan', h=pv, x='~', y='~', hd='~'))
        for _ in range(ngeo or r.choice([1, 1, 2, 3, 4])):
            if self.common_geos and r.random() < 0.4:
                g, gc = r.choice(self.common_geos), []
            else:
                g, gc = self.geo(kinds=kinds or 'line arc spiral poly')
            out += gc + [dict(op='PGeo', p=pv, g=g)]
            if hd is not None:
                out[-1]['hd'] = hd
                hd = self.head()
        ln, lc = self.lanes(counts, rich=rich, widths=widths, linkers=linkers)
        out = interleave(r, [out, lc])
        c = dict(op='Road', h=h, id=rid, plan=pv, lanes=ln, type=conn, name='~', rule='~')
        if conn == '-1' and r.random() < 0.6:
            c['type'] = '~'
        if named or r.random() < 0.2:
            c['name'] = self.maybe(0.6, lambda: r.choice(NAMES + [rid, rid, conn]))
            c['rule'] = self.maybe(0.3, lambda: r.choice(['RHT', 'LHT']))
        if r.random() < 0.3:
            c['txt'] = True
        return out + [c]

    def ids(self, n):
        r = self.r
        mode = r.choice(['small', 'zero', 'mix', 'big', 'alike'])
        if mode == 'small':
            pool = [str(i) for i in range(1, n + 6)]
        elif mode == 'zero':
            pool = [str(i) for i in range(0, n)]
        elif mode == 'big':
            pool = [str(r.randrange(100, 100000)) for _ in range(3 * n)]
        elif mode == 'alike':
            # ids that differ in the case of a letter or in the way of writing a number, next to each other
            kind = r.choice(['%s', 'road %s', '%s1'])
            pairs = [[str(i), r.choice(['0%d', '%d.0', '00%d', '+%d', '%d0']) % i] if r.random() < 0.4 else [kind % chr(97 + i), kind % chr(65 + i)] for i in range(n)]
            r.shuffle(pairs)
            for p in pairs:
                r.shuffle(p)
            pool = []
            for x in sum(pairs, []):
                if x not in pool:
                    pool.append(x)
            return pool[:n]
        else:
            pool = ['r%d' % i for i in range(n)] + [str(i) for i in range(n)] + ['-5', 'a b', '01', '1.0', 'A', 'a', '-0']
        pool = sorted(set(pool))
        r.shuffle(pool)
        return pool[:n]

    def network(self, n=None, direct=0.6, fixed=None, mismatch=0.12, lose=0.12, offsets=0.4, rich=False, name=None, genj=None, extras=0.3,
                queries=True, pre='', ngeo=None, kinds=None, sections=None, refuse=0.1, adjust=True, maxlanes=3, twin=False, linkers=0.3):
        """a network of ordinary and connecting roads; returns the calls"""
        r = self.r
        n = n or r.choice([1, 2, 2, 3, 3, 4, 5, 6])
        if n < 4 and not rich and r.random() < 0.1:
            maxlanes = 12
        ids = self.ids(n + 8)
        roads = []                               # [h, id, counts, conn, links{end: (to index, cp, off)}]
        for i in range(n):
            k = sections or r.choice([1, 1, 1, 2, 3])
            roads.append(dict(h=pre + self.h('R'), id=ids[i], counts=[[r.randrange(0, maxlanes + 1), r.randrange(0, maxlanes + 1)] for _ in range(k)], conn='-1', links={}))
        pairs = {}
        direct_joints = []
        tries = 0
        want = r.choice([0, n - 1, n - 1, n, n + 1]) if n > 1 else 0
        while want and tries < 30:
            tries += 1
            a, b = r.randrange(n), r.randrange(n)
            if a == b and r.random() < 0.7:
                continue
            if r.random() > direct:
                want -= 1
                pairs.setdefault('conn', []).append((a, b))
                continue
            if a == b:
                continue
            ea, eb = r.choice(['end', 'end', 'end', 'start']), r.choice(['start', 'start', 'start', 'end'])
            if (ea == 'end') == (eb == 'end') and r.random() < 0.5:
                continue
            key = frozenset((a, b))
            kind = 'same' if ea != eb else 'opp'
            if key in pairs and (kind == 'opp' or pairs[key] != [('same')] * len(pairs[key])):
                continue
            two = r.random() < 0.75
            if ea in roads[a]['links'] or (two and eb in roads[b]['links']):
                continue
            off = r.choice([-2, -1, 1, 2, -1, 1, 3, -3, 4, -5]) if r.random() < offsets * 0.6 else 0
            roads[a]['links'][ea] = (b, eb, off)
            if two:
                roads[b]['links'][eb] = (a, ea, -off if kind == 'same' else off)
                if kind == 'same':
                    direct_joints.append((a, b) if ea == 'end' else (b, a))
            pairs.setdefault(key, []).append(kind)
            want -= 1
        for _ in range(3):
            for a, b in direct_joints:
                if (a, b) not in pairs.get('bad', []):
                    if r.random() < mismatch / 3:
                        pairs.setdefault('bad', []).append((a, b))
                    else:
                        roads[b]['counts'][0] = list(roads[a]['counts'][-1])
        jids = ids[n:n + 3] + [ids[0], '0', '1', '77', ids[-1]]
        jid = r.choice(jids)
        touched = set()
        conns = pairs.get('conn', [])
        for a, b in conns:
            if len(roads) - n >= 5:
                break
            c = self.connecting(roads, a, b, pre + self.h('R'), ids[len(roads)], jid, offsets)
            if c:
                roads.append(c)
                for e in ('start', 'end'):
                    if e in c['links'] and c['links'][e][0] != 'junction':
                        touched.add((c['links'][e][0], c['links'][e][1]))
        for i, e in touched:
            if e not in roads[i]['links'] and r.random() < 0.9:
                roads[i]['links'][e] = ('junction', jid, 0)
        if r.random() < lose and roads:
            x = r.choice(roads)
            if x['links'] and x['conn'] == '-1':
                x['links'].pop(r.choice(sorted(x['links'])))
        if fixed is None:
            fixed = r.choice([0, 0, 0, 1, 1, 2])
        for x in r.sample(roads, min(fixed, len(roads))):
            x['fixed'] = True
        # geometries and road marks that several roads or lanes have in common
        common, self.common_geos, self.common_marks = [], [], []
        if r.random() < 0.2:
            for _ in range(r.choice([1, 1, 2])):
                h, c = self.geo(kinds=kinds or 'line arc spiral poly')
                common += c
                self.common_geos.append(h)
                h, c = self.mark(simple=r.random() < 0.5)
                common += c
                self.common_marks.append(h)
        seqs = []
        net = pre + 'net'
        for x in roads:
            q = self.road(x['h'], x['id'], x['counts'], x['conn'], x.get('fixed', False), rich=rich, ngeo=ngeo, kinds=kinds, linkers=r.random() < linkers)
            ls = []
            for e, (to, cp, off) in sorted(x['links'].items()):
                c = dict(op='Succ' if e == 'end' else 'Pred', r=x['h'], off=off)
                if to == 'junction':
                    c.update(et='junction', id=cp, cp='~')
                else:
                    c.update(et='road', id=roads[to]['id'], cp=cp)
                if r.random() < 0.3:
                    c['txt'] = True
                ls.append(c)
            r.shuffle(ls)
            for _ in range(r.choice([1, 1, 1, 2]) if r.random() < refuse else 0):
                ls.append(dict(self.bad_link(x, roads), refused=True) if twin else self.bad_link(x, roads))
            x['tail'] = ls
            seqs.append(q)
        out = common + interleave(r, seqs)
        self.common_geos, self.common_marks = [], []
        links = [c for x in roads for c in x['tail']]
        out += self.shuffled_links(links)
        out.append(dict(op='Net', h=net, name=name or r.choice(NAMES)))
        order = list(roads)
        r.shuffle(order)
        adds = [dict(op='AddRoad', n=net, r=x['h']) for x in order]
        # a start position is moved; or given to the first road after all
        if r.random() < 0.12:
            x = r.choice([x for x in order if x.get('fixed')] or order[:1])
            if not any(c['op'] == 'PGeo' and c['p'] == x['h'] + 'P' and 'hd' in c for c in out):
                out.append(self.move(x['h'] + 'P'))
        cr = [x for x in roads if x['conn'] != '-1' and len(x['links']) == 2 and 'junction' not in [l[0] for l in x['links'].values()]]
        juncs = []
        if cr and (genj if genj is not None else r.random() < 0.5):
            j = pre + self.h('J')
            juncs += [dict(op='GenJ', h=j, jr=[x['h'] for x in cr], id=jid, roads=[x['h'] for x in roads if x['conn'] == '-1']), dict(op='AddJunc', n=net, j=j)]
        out += interleave(r, [adds, juncs])
        if r.random() < extras:
            out += self.add_things([x['h'] for x in roads], 1, 1)
        if not adjust:
            return out, roads, net
        out.append(dict(op='Adjust', n=net))
        out.append(dict(op='Export', n=net))
        if queries:
            for x in roads:
                if r.random() < 0.5:
                    out.append(r.choice([dict(op='PStart', p=x['h'] + 'P'), dict(op='PEnd', p=x['h'] + 'P'), dict(op='PLen', p=x['h'] + 'P'),
                                         dict(op='REnd', r=x['h']), dict(op='LkGet', x=x['h'])]))
            lanes = [c['l'] for c in out if c['op'] in ('AddL', 'AddR')]
            out += [dict(op='LkGet', x=r.choice(lanes)) for _ in range(r.choice([0, 0, 1, 3])) if lanes]
        return out, roads, net

    def move(self, p):
        return dict(op='PSet', p=p, **dict((k, v if self.r.random() < 0.85 else '~') for k, v in self.pose().items()))

    def shuffled_links(self, links):
        """links of different roads in any order, of the same road in theirs"""
        by = {}
        for c in links:
            by.setdefault(c['r'], []).append(c)
        return interleave(self.r, list(by.values()))

    def bad_link(self, x, roads):
        """a call that must be refused and change nothing"""
        r = self.r
        other = r.choice(roads)
        done = sorted(x['links'])
        if done and r.random() < 0.7:
            e = r.choice(done)
            return dict(op='Succ' if e == 'end' else 'Pred', r=x['h'], et=r.choice(['road', 'junction']), id=other['id'],
                        cp=r.choice(['start', 'end']), off=r.choice([0, 0, 1]))
        return dict(op='Neigh', r=x['h'], et='road', id=other['id'], dir='~')

    def connecting(self, roads, a, b, h, rid, jid, offsets):
        """a connecting road from road a to road b, at random ends, with lanes that exist on both"""
        r = self.r
        ends = {}
        limits = []
        for e, i in (('start', a), ('end', b)):
            cp = r.choice(['start', 'end'])
            # sign of the other road along this one
            sign = (1 if cp == 'end' else -1) if e == 'start' else (1 if cp == 'start' else -1)
            nl, nr = roads[i]['counts'][-1 if cp == 'end' else 0]
            if sign < 0:
                nl, nr = nr, nl
            ends[e] = [i, cp, 0]
            limits.append((nl, nr))                # lanes available in this road's direction
        # the lane counts of the first and last section may differ
        secs = []
        for (nl, nr) in limits:
            secs.append([r.randrange(0, nl + 1), r.randrange(0, nr + 1)])
        if r.random() < offsets:
            # one-way with offsets
            side = r.choice([0, 1])
            for k, e in enumerate(('start', 'end')):
                avail = limits[k][side]
                if avail == 0:
                    return None
                m = r.randrange(1, avail + 1)
                off = r.randrange(0, avail - m + 1)
                secs[k] = [m, 0] if side == 0 else [0, m]
                ends[e][2] = off if side == 0 else -off
        if r.random() < 0.5:
            # one section: the same lanes at both ends
            same = [min(secs[0][0], secs[1][0]), min(secs[0][1], secs[1][1])]
            counts = [same]
        else:
            counts = [secs[0]] + [[r.randrange(0, 4), r.randrange(0, 4)] for _ in range(r.choice([0, 0, 1]))] + [secs[1]]
        links = dict((e, tuple(v)) for e, v in ends.items())
        if r.random() < 0.1:
            e = r.choice(['start', 'end'])
            links.pop(e)
            if r.random() < 0.4:
                links[e] = ('junction', r.choice([jid, roads[a]['id'], roads[b]['id']]), 0)
        return dict(h=h, id=rid, counts=counts, conn=jid, links=links)


# ---------------------------------------------------------------------------- families
def p_geo(rng):
    """curves: end and start computations in any order (C14, C22)"""
    g = G(rng)
    out = []
    hs = []
    for _ in range(rng.randrange(1, 4)):
        h, c = g.geo()
        out += c
        hs.append(h)
    poses = [g.pose() for _ in range(3)]
    for _ in range(rng.randrange(3, 9)):
        out.append(dict(op=rng.choice(['GEnd', 'GEnd', 'GStart', 'GBack']), g=rng.choice(hs), **rng.choice(poses)))
    return out


def p_ctor(rng):
    """every combination of optional arguments (C19)"""
    g = G(rng)
    out = []
    for _ in range(12):
        def o(f):
            return f() if rng.random() < 0.5 else '~'
        k = rng.choice(['Arc', 'Arc', 'Spiral', 'Spiral', 'Poly', 'Plan', 'Plan'])
        ln = lambda: rng.choice([0, 100 * rng.randrange(1, 2000)])
        an = lambda: rng.choice([0, g.angle(), -g.angle()])
        if k == 'Arc':
            out.append(dict(op='Arc', h=g.h('x'), r=rng.choice([0, g.radius(), g.radius(), g.radius()]), len=o(ln), ang=o(an)))
            if rng.random() < 0.25:                     # almost straight
                out[-1].update(r=0, flat=rng.choice([-1, 1]) * rng.randrange(6, 21), ang='~')
        elif k == 'Spiral':
            r0, r1 = rng.choice([0, g.radius()]), g.radius()
            if r0 * r1 < 0:
                r0 = -r0
            out.append(dict(op='Spiral', h=g.h('x'), r0=r0, r1=r1, len=o(ln), ang=o(an), rl=o(ln)))
        elif k == 'Poly':
            n = g.length()
            out.append(dict(op='Poly', h=g.h('x'), pr=rng.choice(['normalized', 'arcLength', 'arcLength']), len=o(lambda: n), u=[0, n, 0, 0], v=[0, 0, n // 9, 0],
                            explicit=rng.random() < 0.5))
        else:
            z = lambda: rng.choice([0, 0, g.coord()])
            out.append(dict(op='Plan', h=g.h('x'), x=o(z), y=o(z), hd=o(lambda: rng.choice([0, g.head()]))))
    return out


def p_plan(rng):
    """one plan view, placed from its start or its end (C01)"""
    g = G(rng)
    out = []
    for _ in range(rng.choice([1, 1, 2])):
        p = g.h('p')
        fixed = rng.random() < 0.4
        a = g.pose()
        out.append(dict(op='Plan', h=p, **(a if fixed else dict(x='~', y='~', hd='~'))))
        shared = []
        st = not fixed or rng.random() < 0.2
        back = rng.random() < 0.5
        b = g.pose() if rng.random() < 0.8 else dict(x=0, y=0, hd=0)
        hd = (b if st else a)['hd'] if not back and rng.random() < 0.25 else None
        for _ in range(rng.choice([1, 2, 3, 4, 6]) if rng.random() < 0.95 else 15):
            if shared and rng.random() < 0.15:
                h = rng.choice(shared)
            else:
                h, c = g.geo()
                out += c
                shared.append(h)
            out.append(dict(op='PGeo', p=p, g=h))
            if hd is not None:
                out[-1]['hd'] = hd
                hd = rng.choice([0, g.head(), g.head()])
        if hd is None and rng.random() < 0.15:
            out.append(g.move(p))
        out.append(dict(op='PAdj', p=p, set=st, back=back, **b))
        out.append(dict(op='PEl', p=p))
        out += [dict(op=o, p=p) for o in ('PStart', 'PEnd', 'PLen') if rng.random() < 0.8]
        if rng.random() < 0.3:
            out.append(dict(op='PEl', p=p))
    return out


def p_net(rng, **kw):
    g = G(rng)
    return g.network(**kw)[0]


def p_long(rng):
    """long chains of roads, added in an order that places few of them at a time (C02, C03, C04)"""
    g = G(rng)
    n = rng.choice([9, 12, 17, 24])
    ids = g.ids(n)
    if rng.random() < 0.5:
        ids = ['%d' % i for i in range(n)]
    hs, q, links = [], [], []
    back = rng.random() < 0.5                   # placed from the end of the chain
    first = n - 1 if back else 0
    pos = rng.random() < 0.5
    for i in range(n):
        h = g.h('R')
        hs.append(h)
        q += g.road(h, ids[i], [[1, 1]], fixed=pos and i == first, ngeo=1, kinds=rng.choice(['line', 'line arc']))
    whole = rng.random() < 0.6                  # can be placed
    cut = rng.randrange(1, n) if not whole and rng.random() < 0.6 else 0
    turned = set(i for i in range(n) if rng.random() < 0.15)
    end = lambda i: 'start' if i in turned else 'end'
    start = lambda i: 'end' if i in turned else 'start'
    for i in range(n - 1):
        if i + 1 == cut:
            continue
        both = whole or rng.random() < 0.8
        a = dict(op='Succ' if end(i) == 'end' else 'Pred', r=hs[i], et='road', id=ids[i + 1], cp=start(i + 1), off=0)
        b = dict(op='Pred' if start(i + 1) == 'start' else 'Succ', r=hs[i + 1], et='road', id=ids[i], cp=end(i), off=0)
        links += [a, b] if both else [rng.choice([a, b])]
    order = list(range(n))
    if pos:
        order = order if back else order[::-1]
        if rng.random() < 0.2:
            rng.shuffle(order)
    else:
        order.remove(first)
        order = [first] + (order if back else order[::-1])
    return q + links + [dict(op='Net', h='net', name='long')] + [dict(op='AddRoad', n='net', r=hs[i]) for i in order] + \
        [dict(op='Adjust', n='net'), dict(op='Export', n='net')]


def p_apart(rng):
    """placing the roads and linking their lanes pair by pair instead of adjusting (C23)"""
    g = G(rng)
    out, roads, net = g.network(n=rng.choice([2, 2, 3, 4]), adjust=False, direct=rng.choice([1.0, 0.5, 0.2]), ngeo=1, extras=0, lose=0.05, mismatch=0.06)
    hs = [x['h'] for x in roads]
    pairs = [(a, b) for i, a in enumerate(hs) for b in hs[:i]]
    rng.shuffle(pairs)
    if rng.random() < 0.3:
        pairs = pairs[:rng.randrange(len(pairs) + 1)]
    seq = [dict(op='Match', a=a, b=b) for a, b in [p if rng.random() < 0.5 else p[::-1] for p in pairs]]
    if rng.random() < 0.3:
        seq.insert(rng.randrange(len(seq) + 1), dict(op='REl', r=rng.choice(hs)))
    seq.insert(rng.choice([0, len(seq), rng.randrange(len(seq) + 1)]), dict(op='Place', n=net))
    return out + seq + [dict(op='Export', n=net)]


def p_lanes(rng):
    """sections with any interleaving of lanes, linkers in any combination (C06, C07)"""
    g = G(rng)
    out = []
    seqs = []
    hs = []
    for _ in range(rng.choice([1, 1, 2])):
        h = g.h('R')
        hs.append(h)
        k = rng.choice([1, 2, 2, 3, 4]) if rng.random() < 0.94 else 11
        most = 12 if rng.random() < 0.1 else 3
        counts = [[rng.randrange(0, most + 1), rng.randrange(0, most + 1)] for _ in range(k)]
        seqs.append(g.road(h, g.ident(), counts, rich=rng.random() < 0.6, ngeo=1, linkers=rng.random() < 0.8))
    out = interleave(rng, seqs)
    for h in hs:
        out.append(dict(op='REl', r=h))
    if rng.random() < 0.4:
        out += [dict(op='Net', h='net', name='n'), dict(op='AddRoad', n='net', r=hs[0]), dict(op='Adjust', n='net'), dict(op='Export', n='net')]
    return out


def p_links(rng):
    """any sequence of link calls on a few roads (C11)"""
    g = G(rng)
    out = []
    hs = [g.h('R') for _ in range(rng.choice([1, 2, 2, 3]))]
    ids = g.ids(len(hs) + 3)
    for h, i in zip(hs, ids):
        out += g.road(h, i, [[1, 1]], ngeo=1, kinds='line', fixed=rng.random() < 0.8)
    for _ in range(rng.randrange(3, 12)):
        h = rng.choice(hs)
        k = rng.choice(['Succ', 'Pred', 'Neigh', 'Neigh'])
        i = rng.choice(ids)
        if k == 'Neigh':
            c = dict(op=k, r=h, et=rng.choice(['road', 'road', 'junction']), id=i, dir=rng.choice(['same', 'opposite', '~']))
        else:
            et = rng.choice(['road', 'junction', 'junction'])
            # a road link names another road of the network
            if et == 'road':
                others = [y for x, y in zip(hs, ids) if x != h]
                if not others:
                    et = 'junction'
                else:
                    i = rng.choice(others)
            c = dict(op=k, r=h, et=et, id=i, cp=rng.choice(['start', 'end']) if et == 'road' or rng.random() < 0.2 else '~', off=rng.choice([0, 0, 0, 1]))
        if rng.random() < 0.3:
            c['txt'] = True
        out.append(c)
        if rng.random() < 0.2:
            out.append(dict(op='REl', r=h))
        if rng.random() < 0.3:
            out.append(dict(op='LkGet', x=h))
    for h in hs:
        out.append(dict(op='REl', r=h))
        out.append(dict(op='LkGet', x=h))
    return out


def p_links_net(rng):
    """refused link calls around a small network that is then adjusted (C11)"""
    calls = G(rng).network(n=rng.choice([2, 3]), refuse=0.9, lose=0, mismatch=0, extras=0, ngeo=1, sections=1, twin=True)[0]
    # the twin makes the same calls without those that are refused
    rest = [c for c in calls if not c.pop('refused', False)]
    return dict(calls=calls, twin=rest, why='C11')


def p_conns(rng):
    """junction tables by hand (C09)"""
    g = G(rng)
    js = [g.h('J') for _ in range(rng.choice([1, 1, 2]))]
    out = [dict(op='Junc', h=j, name=rng.choice(NAMES), id=str(rng.randrange(99))) for j in js]
    seqs = []
    given = dict((j, set()) for j in js)
    for j in js:
        q = []
        held = []
        for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 12]) if rng.random() < 0.95 else 25):
            c = g.h('c')
            mode = rng.random()
            if mode < 0.55:
                i = '~'
            elif mode < 0.85:
                i = {'fresh': rng.choice([0, 0, 0, 1, 2]), 'j': j}
            elif mode < 0.9:
                i = {'taken': rng.choice([0, 0, 1, 2, 5]), 'j': j}
            else:
                i = rng.choice(['c%d' % g.n, str(1000 + g.n)])
            q.append(dict(op='Conn', h=c, inc=g.ident(), con=g.ident(), cp=rng.choice(['start', 'end']), id=i, txt=rng.random() < 0.3))
            for _ in range(rng.choice([0, 1, 2, 3])):
                q.append(dict(op='CLink', c=c, f=rng.randrange(-4, 5), t=rng.randrange(-4, 5)))
            q.append(dict(op='AddConn', j=j, c=c))
            if rng.random() < 0.2:
                q.append(dict(op='CLink', c=c, f=rng.randrange(-4, 5), t=rng.randrange(-4, 5)))
            if rng.random() < 0.15:
                q.append(dict(op='JEl', j=j))
        q.append(dict(op='JEl', j=j))
        seqs.append(q)
    return out + interleave(rng, seqs)


def p_sigobj(rng):
    """signals, objects, repeats, ids (C10, C16)"""
    g = G(rng)
    out = []
    hs = []
    for _ in range(rng.choice([1, 2, 2])):
        h = g.h('R')
        hs.append(h)
        out += g.road(h, g.ident() + str(g.n), [[1, 1]], ngeo=1, kinds='line', fixed=True)
    out += g.add_things(hs, *([rng.choice([2, 6, 10]), rng.choice([2, 6, 10])] if rng.random() < 0.92 else rng.choice([[60, 2], [2, 60]])))
    if rng.random() < 0.5:
        for make in (g.signal, g.object):
            h, c = make(ids=['z1', '5'])
            if c[0]['id'] != '~':
                out += c
                if c[0]['op'] == 'Obj':
                    out += [g.repeat(h) for _ in range(rng.choice([0, 1, 2]))]
                out.append(dict(op='OEl', o=h))
                if rng.random() < 0.2:
                    out.append(dict(op='Dep', id=g.ident(), type=rng.choice(['0', 'on', 'a b', '17'])))
    if rng.random() < 0.4:
        out += side_calls(g, hs, rng, adjusted=False)
        out.append(dict(op='Net', h='net', name='n'))
        out += [dict(op='AddRoad', n='net', r=h) for h in hs]
        out.append(dict(op='Adjust', n='net'))
        out += side_calls(g, hs, rng)
        out += g.add_things(hs, 3, 3)
        out.append(dict(op='Export', n='net'))
    else:
        out += [dict(op='REl', r=h) for h in hs]
    return out


def side_calls(g, hs, rng, adjusted=True):
    out = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        o, c = g.object()
        out += c
        if rng.random() < 0.3:
            out.append(g.repeat(o))
        if rng.random() < 0.2:
            out.append(dict(op='AddObj', r=rng.choice(hs), xs=[o], mode='one'))
        for _ in range(rng.choice([1, 1, 2])):
            out.append(dict(op='Side', h=g.h('D'), r=rng.choice(hs), o=o, dist=rng.choice([0, 100000, 'f:7.5', 'f:%r' % (rng.random() * 30)]),
                            so=g.maybe(0.5, lambda: rng.choice([0, rng.randrange(1, 90) * 1000])), to=g.maybe(0.5, lambda: rng.choice([0, rng.randrange(-30, 90) * 500])),
                            side=rng.choice(['~', 'both', 'left', 'right'])))
    return out


def p_side(rng):
    """roadside objects on roads of any shape (C15)"""
    g = G(rng)
    out = []
    hs = []
    for _ in range(rng.choice([1, 1, 2])):
        h = g.h('R')
        hs.append(h)
        k = rng.choice([1, 1, 2, 3])
        out += g.road(h, 'r%d' % g.n, [[rng.randrange(0, 4), rng.randrange(0, 4)] for _ in range(k)], fixed=True, widths=[30000, 35000, 'f:2.75', 'i:4', 'f:0.5', 28000])
    if rng.random() < 0.4:
        out += side_calls(g, hs, rng, adjusted=False)
        out += [dict(op='REl', r=h) for h in hs]
    out.append(dict(op='Net', h='net', name='n'))
    out += [dict(op='AddRoad', n='net', r=h) for h in hs]
    out.append(dict(op='Adjust', n='net'))
    while not any(c['op'] == 'Side' for c in out[-8:]):
        out += side_calls(g, hs, rng)
    out.append(dict(op='Export', n='net'))
    return out


def p_marks(rng):
    """road marks of every kind (C17, C12)"""
    g = G(rng)
    h = g.h('R')
    out = g.road(h, g.ident(), [[2, 2]], ngeo=1, kinds='line', conn=rng.choice(['-1', '-1', '0', g.ident()]))
    lanes = [c['l'] for c in out if c['op'] in ('AddL', 'AddR')] + [c['c'] for c in out if c['op'] == 'Sec']
    for l in lanes:
        m, mc = g.mark(p=rng.choice([0.1, 0.3, 0.5, 0.8]))
        out += mc + [dict(op='LMark', l=l, m=m)]
        if rng.random() < 0.5:
            out.append(dict(mc[0], op='RLine'))
    out.append(dict(op='REl', r=h))
    return out


LANECOUNTS = [-1, 0, 1, 2, 3] * 3 + [7]


def gen_road_calls(g, h=None, rid=None, conn=None, pool=None):
    rng = g.r
    h = h or g.h('R')
    rid = rid or 'g%d' % g.n
    k = rng.choice(['GenRoad', 'GenRoad', 'GenRoad', 'GenStraight', 'GenCloth'])
    ty = conn if conn is not None else rng.choice(['~', '-1', '5', '1'])
    w = g.maybe(0.6, lambda: rng.choice([30000, 35000, 'i:4', 'f:3.25', 'f:0.1']))
    if k == 'GenRoad':
        gs, out = [], []
        pool = [] if pool is None else pool
        for _ in range(rng.choice([1, 1, 2, 3, 3, 6])):
            if pool and rng.random() < 0.2:             # an instance used before, in this road or another one
                gs.append(rng.choice(pool))
                continue
            x, c = g.geo()
            gs.append(x)
            pool.append(x)
            out += c
        cm = '~'
        if rng.random() < 0.4:
            cm, mc = g.mark(p=0.3)
            out += mc
        return h, out + [dict(op='GenRoad', h=h, id=rid, gs=gs, single=len(gs) == 1 and rng.random() < 0.6, left=rng.choice(LANECOUNTS),
                              right=rng.choice(LANECOUNTS), type=ty, cm=cm, w=w)]
    if k == 'GenStraight':
        return h, [dict(op='GenStraight', h=h, id=rid, len=g.maybe(0.8, lambda: g.long() if conn is None else g.length()), type=ty, n=rng.choice(LANECOUNTS), w=w)]
    rad = g.radius()
    a, c = rng.randrange(2000000, 120000000), rng.randrange(2000000, 60000000)
    if rng.random() < 0.4:
        a, c = -a, -c
    return h, [dict(op='GenCloth', h=h, id=rid, r=rad, arc=a, cloth=c, type=ty, n=rng.choice(LANECOUNTS), w=w,
                    k0=g.maybe(0.3, lambda: rng.choice([0, abs(rad) * 4 * (1 if rad > 0 else -1)])))]


def p_gen(rng):
    """generated roads, used further, together in a network (C20)"""
    g = G(rng)
    out, hs, pool = [], [], []
    for _ in range(rng.choice([1, 2, 3])):
        h, c = gen_road_calls(g, pool=pool)
        out += c
        hs.append((h, c[-1]))
        if rng.random() < 0.3:
            out.append(dict(op='REl', r=h))
    # later calls on one road
    for h, c in hs:
        if rng.random() < 0.6:
            nl = c.get('left', c.get('n'))
            nl = 1 if nl < 0 else nl
            for _ in range(rng.choice([1, 2])):
                k = rng.choice(['mark', 'cmark', 'lane', 'sig', 'geo', 'link'])
                if k == 'mark' and nl > 0:
                    m, mc = g.mark()
                    out += mc + [dict(op='LMark', l=h + '.l1', m=m)]
                elif k == 'cmark':
                    m, mc = g.mark()
                    out += mc + [dict(op='LMark', l=h + '.c', m=m)]
                elif k == 'lane':
                    l, lc = g.lane()
                    out += lc + [dict(op=rng.choice(['AddL', 'AddR']), s=h + '.s0', l=l)]
                elif k == 'sig':
                    out += g.add_things([h], 2, 2)
                elif k == 'geo':
                    x, xc = g.geo()
                    out += xc + [dict(op='PGeo', p=h + '.pv', g=x)]
                elif k == 'link':
                    out.append(dict(op='Neigh', r=h, et='road', id='n1', dir='same'))
    h0 = hs[0][0]
    if rng.random() < 0.3:
        out += [dict(op='REl', r=h) for h, _ in hs]
        return out
    nets = []
    for h, c in hs:
        n = 'net' + h
        nets.append([dict(op='Net', h=n, name='n'), dict(op='AddRoad', n=n, r=h), dict(op='Adjust', n=n), dict(op='Export', n=n)])
    return out + interleave(rng, nets)


ARMS = [(3, [0, 90, 180]), (3, [0, 90, 270]), (3, [0, 180, 270]), (3, [0, 120, 240]), (4, [0, 90, 180, 270])]


def p_junction(rng, bad=0.12):
    """generated junctions (C18, C08)"""
    return crossing(G(rng), bad)


def crossing(g, bad=0.12, pre='', given=None):
    rng = g.r
    n, angs = rng.choice(ARMS)
    lanes = rng.choice([1, 1, 2, 3])
    w = rng.choice([30000, 30000, 35000, 'f:2.5'])
    out, arms = [], []
    ids = given or g.ids(n + 2)
    badarm = rng.randrange(n) if rng.random() < bad else -1
    for i in range(n):
        h = pre + g.h('R')
        nl, nr = lanes, lanes
        if i == badarm:
            nl, nr = rng.choice([(lanes + 1, lanes + 1), (lanes + 1, lanes), (lanes, lanes + 1), (lanes, lanes + 1)])
        kind = rng.choice(['GenStraight', 'GenRoad', 'user'] if nl == nr else ['GenRoad', 'user'])
        if kind == 'GenStraight':
            out.append(dict(op='GenStraight', h=h, id=ids[i], len=g.length(), type='~', n=nl, w=w))
        elif kind == 'GenRoad':
            x, c = g.geo()
            out += c + [dict(op='GenRoad', h=h, id=ids[i], gs=[x], single=True, left=nl, right=nr, type='~', cm='~', w=w)]
        else:
            k = rng.choice([1, 2])
            counts = [[rng.randrange(1, 4), rng.randrange(1, 4)] for _ in range(k)]
            counts[-1 if i == 0 else 0] = [nl, nr]
            out += g.road(h, ids[i], counts, widths=[w])
        arms.append(h)
    jid = g.maybe(0.7, lambda: rng.choice(['1', '7', ids[0], ids[-1], '100']))
    start = rng.choice([-1, 0, 100, 500, 5000])
    sp, ap = rng.choice([(-1, -1), (-1, -1), (25000000, 50000000), (10000000, 80000000), (40000000, 20000000)])
    out.append(dict(op='GenJR', h=pre + 'jr', roads=arms, angs=angs, rad=rng.choice([50000, 80000, 10000 * rng.randrange(4, 60), rng.randrange(40000, 900000)]),
                    jid=jid, sp=sp, ap=ap, start=start))
    npairs = n * (n - 1) // 2
    jr = [pre + 'jr.%d' % i for i in range(npairs)]
    if badarm >= 0:
        return out
    # ids must not collide
    s = 100 if start < 0 else start
    if set(str(s + i) for i in range(npairs)) & set(ids):
        return crossing(g, bad, pre)
    net = pre + 'net'
    out.append(dict(op='Net', h=net, name='crossing'))
    order = arms[1:] + jr
    mode = rng.random()
    if mode < 0.6:
        # the first arm is added first and becomes the pivot
        rng.shuffle(order)
        order = [arms[0]] + order
    else:
        order = arms + jr
        rng.shuffle(order)
    adds = [dict(op='AddRoad', n=net, r=h) for h in order]
    jc = []
    if rng.random() < 0.7:
        jc = [dict(op='GenJ', h=pre + 'J', jr=jr, id='1' if jid == '~' else jid, roads=arms), dict(op='AddJunc', n=net, j=pre + 'J')]
    out += interleave(rng, [adds, jc])
    out += [dict(op='Adjust', n=net), dict(op='Export', n=net)]
    return out


def p_full(rng):
    """everything at once (C12)"""
    g = G(rng)
    out, roads, net = g.network(rich=True, extras=1.0, lose=0.03, mismatch=0.02, adjust=False)
    for x in roads:
        for _ in range(rng.choice([0, 0, 1, 2])):
            out.append(dict(op='Neigh', r=x['h'], et='road', id=rng.choice(roads)['id'], dir=rng.choice(['same', 'opposite'])))
    for _ in range(rng.choice([0, 0, 1, 2, 3])):
        j = g.h('J')
        out.append(dict(op='Junc', h=j, name=rng.choice(NAMES), id=g.ident()))
        c = g.h('c')
        out += [dict(op='Conn', h=c, inc=g.ident(), con=g.ident(), cp='start', id='~'), dict(op='CLink', c=c, f=1, t=-2), dict(op='AddConn', j=j, c=c),
                dict(op='AddJunc', n=net, j=j)]
    if rng.random() < 0.4:
        out.append(dict(op='Export', n=net))
    out += [dict(op='Adjust', n=net), dict(op='Export', n=net)]
    out += g.add_things([x['h'] for x in roads], 2, 2)
    out.append(dict(op='Export', n=net))
    return out


def p_write(rng):
    """exports and writes in any number and order (C13); the twin makes one export at the end"""
    g = G(rng)
    out, roads, net = g.network(n=rng.choice([1, 2, 2, 3]), rich=rng.random() < 0.5, extras=0.6, lose=0, mismatch=0, adjust=False,
                                ngeo=rng.choice([1, 2]), name=rng.choice(NAMES + ['sub/net', 'a.b/c.d']), fixed=rng.choice([0, 1]))
    fname = 'out-%d.xodr' % rng.randrange(3)
    name = next(c['name'] for c in out if c['op'] == 'Net')
    files = [fname, fname, 'a b.xodr', 'sub/deep/x.xml', 'no ending'] + (['~'] if all(x.isalnum() or x in ' ._-/' for x in name) and name.isascii() else [])
    tail = [dict(op='Adjust', n=net)]
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(rng.choice([0, 1, 2])):
            tail.append(rng.choice([dict(op='Export', n=net), dict(op='REl', r=rng.choice(roads)['h']), dict(op='Show', n=net)]))
        # rewriting the same file, over longer and shorter content
        for _ in range(rng.choice([1, 1, 2])):
            tail.append(dict(op='Write', n=net, file=rng.choice(files), pretty=rng.choice(['~', 'yes', 'no', 'no']),
                             prior=rng.choice(['~', '~', 'x', '<OpenDRIVE/>', 'garbage \u00e9\n']), times=rng.choice([1, 20000])))
            if rng.random() < 0.1:
                tail[-1].update(run=True, pretty='yes')
        if rng.random() < 0.6:
            tail += g.add_things([x['h'] for x in roads], 1, 1)
    tail.append(dict(op='Export', n=net))
    calls = out + tail
    keep = [c for i, c in enumerate(calls) if c['op'] not in ('Export', 'Write', 'REl', 'Show')]
    return dict(calls=calls, twin=keep + [dict(op='Export', n=net)], why='C13')


def p_two(rng):
    """two or three networks built at the same time (C21); the twins are the same calls without the others"""
    g = G(rng)
    seqs = []
    arms = g.ids(6) if rng.random() < 0.2 else None
    for k in range(rng.choice([2, 2, 3])):
        kind = rng.random()
        pre = 'n%d' % k
        if arms and k < 2 or kind < 0.08:
            # generated junctions, with arms of the same ids
            s = crossing(g, 0, pre, arms)
        elif kind < 0.55:
            s, roads, net = g.network(n=rng.choice([1, 2, 3]), pre=pre, extras=0.7, rich=rng.random() < 0.4, lose=0.05, mismatch=0.05, queries=False,
                                       sections=rng.choice([None, None, None, 3, 4]), linkers=rng.choice([0.3, 0.9]))
            if rng.random() < 0.5:
                s += g.add_things([x['h'] for x in roads], 2, 2) + [dict(op='Export', n=net)]
            if rng.random() < 0.5:
                s += side_calls(g, [x['h'] for x in roads], rng) + [dict(op='Export', n=net)]
        else:
            net = pre + 'net'
            h, s = gen_road_calls(g, h=pre + 'R', rid='1', conn='~')
            c = s[-1]
            if rng.random() < 0.6:
                m, mc = g.mark()
                s += mc + [dict(op='LMark', l=pre + 'R.c', m=m)]
            if rng.random() < 0.6:
                l, lc = g.lane()
                s += lc + [dict(op='AddL', s=pre + 'R.s0', l=l)]
            s += g.add_things([h], 2, 2)
            s += [dict(op='Net', h=net, name=pre), dict(op='AddRoad', n=net, r=h)]
            if rng.random() < 0.4:
                j, cc = pre + 'J', pre + 'c'
                s += [dict(op='Junc', h=j, name='j', id='1'), dict(op='Conn', h=cc, inc='1', con='2', cp='start', id='~'), dict(op='CLink', c=cc, f=1, t=1),
                      dict(op='AddConn', j=j, c=cc), dict(op='AddJunc', n=net, j=j)]
            s += [dict(op='Adjust', n=net), dict(op='Export', n=net)]
        seqs.append(s)
    return dict(calls=interleave(rng, seqs), twin=rng.choice(seqs), why='C21')


def nearly(calls, rng):
    """the same calls with numbers that differ a little"""
    out = []
    plan = 'x y' if any(c['op'] == 'PGeo' and 'hd' in c for c in calls) else 'x y hd'     # given headings agree with the plan's
    for c in calls:
        c = dict(c)
        for k in dict(Plan=plan, Line='len', Arc='r len ang', Spiral='len', Lane='a', Side='dist').get(c['op'], '').split():
            v = c.get(k)
            if isinstance(v, int) and rng.random() < 0.6 and (v or k in 'x y hd'):
                c[k] = v + rng.choice([-1, 1]) * rng.choice([1, 9, 40] if k not in ('hd', 'ang') else [10, 1000, 30000])
        out.append(c)
    return out


def p_alike(rng):
    """networks that are nearly or entirely the same, built at the same time (C21)"""
    state = rng.getstate()
    seqs = []
    for k in range(2):
        rng.setstate(state)
        g = G(rng, 'xy'[k])
        s, roads, net = g.network(n=rng.choice([1, 2, 2, 3]), pre='n%d' % k, extras=0.5, lose=0, mismatch=0, queries=False, refuse=0)
        seqs.append(s)
    which = rng.randrange(4)
    if rng.random() < 0.5:
        # round numbers in both
        for c in seqs[0] + seqs[1]:
            if c['op'] == 'Plan' and c['hd'] != '~':
                was, c['hd'] = c['hd'], c['hd'] // 100000 * 100000
                for x in seqs[0] + seqs[1]:
                    if x.get('hd') == was and x['op'] == 'PGeo':
                        x['hd'] = c['hd']
    if which < 3:
        which %= 2
        seqs[which] = nearly(seqs[which], rng)
    return dict(calls=interleave(rng, seqs) if rng.random() < 0.6 else seqs[0] + seqs[1], twin=seqs[rng.choice([0, 1, 1])], why='C21')


FAMILIES = dict(
    apart=p_apart,    long=p_long,
    geo=p_geo, ctor=p_ctor, plan=p_plan, net=p_net, lanes=p_lanes, links=p_links, linksnet=p_links_net, conns=p_conns, sigobj=p_sigobj,
    side=p_side, marks=p_marks, gen=p_gen, junction=p_junction, full=p_full, write=p_write, two=p_two, alike=p_alike,
    chain=lambda r: p_net(r, direct=1.0, ngeo=1, extras=0),
    conn=lambda r: p_net(r, direct=0.2, ngeo=1, extras=0, genj=r.random() < 0.6, n=r.choice([2, 2, 3, 3, 4])),
    shapes=lambda r: p_net(r, lose=0, mismatch=0, extras=0),
)


def program(family, seed, k):
    rng = random.Random('%s/%s/%d' % (family, seed, k))
    p = FAMILIES[family](rng)
    if isinstance(p, list):
        p = dict(calls=p)
    p['id'] = '%s-%s-%d' % (family, seed, k)
    return p
