"""Executor: runs abstract programs on the real pyodrx and records one event per call.

usage: exec.py PROGRAMS.ndjson EVENTS.ndjson        (under /opt/venv/bin/python)

Every program runs in its own forked child (fresh library state, time limit, scratch
working directory).  An event is the call with its arguments resolved (numbers as
[s: exact text, q: 1e-4 units]), the outcome ("ok" or the name of the exception)
and what the library shows afterwards.  Nothing is judged here.
"""
import sys, os, json, math, time, signal, select, tempfile, shutil, hashlib, gc, resource, zlib
import xml.etree.ElementTree, xml.dom.minidom

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


class Sink(object):
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass


BIG = 1000000000
RAW = set('id name junction rule type level elementType elementId contactPoint direction '
          'incomingRoad connectingRoad from to weight color laneChange subtype country unit '
          'dynamic orientation pRange date revMajor revMinor'.split())


def quant(v, scale=1e4):
    try:
        f = float(v)
        if f != f or f in (float('inf'), float('-inf')):
            return BIG
        r = int(round(f * scale))
        return max(-BIG, min(BIG, r))
    except Exception:
        return BIG


def quant_h(v):
    try:
        f = float(v)
        f = math.atan2(math.sin(f), math.cos(f))
        return int(round(f * 1e8))
    except Exception:
        return BIG


def text(v):
    """the exact value; both zeros are one"""
    f = float(v)
    return '0.0' if f == 0 else repr(f)


def canon(k, v):
    if not isinstance(v, str):
        return 'not a text: %s' % type(v).__name__
    if k in RAW:
        return v
    try:
        return text(v)
    except Exception:
        return v


def attrs(el):
    return dict((k, canon(k, v)) for k, v in el.attrib.items())


def tags(el):
    return [c.tag for c in el]


def kids(el, tag):
    return [c for c in el if c.tag == tag]


def tagged(el):
    return [{'tag': c.tag, 'at': attrs(c)} for c in el]


def digest(el, mask=False):
    """the whole document but for the date; mask: without the ids of signals and objects"""
    def put(e, out):
        a = dict(e.attrib)
        if e.tag == 'header':
            a.pop('date', None)
        if mask and e.tag in ('signal', 'object'):
            a.pop('id', None)
        out.append('<%s %s>%s' % (e.tag, json.dumps(sorted(a.items())), (e.text or '').strip()))
        for c in e:
            put(c, out)
        out.append('</>%s' % ((e.tail or '').strip()))
    out = []
    put(el, out)
    return hashlib.sha256('\n'.join(out).encode('utf-8', 'surrogatepass')).hexdigest()[:24]


def layout(el):
    """spread: every element starts on a line of its own; flat: no text between elements"""
    texts = []
    for e in el.iter():
        if len(e):
            texts += [e.text or ''] + [c.tail or '' for c in e]
    return 'spread' if all('\n' in t for t in texts) else 'flat' if not any(texts) else 'mixed'


def lane_doc(el):
    marks = []
    for m in kids(el, 'roadMark'):
        marks.append({'at': attrs(m), 'tags': tags(m),
                      'types': [{'at': attrs(t), 'tags': tags(t), 'lines': [attrs(x) for x in kids(t, 'line')]}
                                for t in kids(m, 'type')]})
    links = []
    for l in kids(el, 'link'):
        links += [{'tag': c.tag, 'at': attrs(c)} for c in l]
    return {'at': attrs(el), 'tags': tags(el), 'links': links,
            'width': [attrs(w) for w in kids(el, 'width')], 'marks': marks}


def fine(v):
    """small differences, in 1e-7 units"""
    return quant(v, 1e7)


def follow(lib, g):
    """where a geometry element leads, as the library itself computes it from the exported numbers"""
    x, y, h, n = [float(g.get(k)) for k in ('x', 'y', 'hdg', 'length')]
    k = g[0]
    if k.tag == 'line':
        t = lib.Line(n)
    elif k.tag == 'arc':
        t = lib.Arc(float(k.get('curvature')), length=n)
    elif k.tag == 'spiral':
        t = lib.Spiral(float(k.get('curvStart')), float(k.get('curvEnd')), length=n)
    else:
        co = [float(k.get(a + b)) for b in 'UV' for a in 'abcd']
        t = lib.ParamPoly3(*co, prange=k.get('pRange'), length=n if k.get('pRange') == 'arcLength' else None)
    return t.get_end_data(x, y, h)


def gap(lib, g, to):
    """how far from there the next geometry (to) starts: position, heading, s (the next s of the last one is the length of the road)"""
    try:
        if to.tag != 'geometry' and to.get('length') is None:
            return [0, 0, 0]
        ds = fine(float(to.get('s' if to.tag == 'geometry' else 'length')) - float(g.get('s')) - float(g.get('length')))
        if to.tag != 'geometry':
            return [0, 0, ds]
        x, y, h = follow(lib, g)[:3]
        d = float(to.get('hdg')) - h
        return [max(abs(fine(float(to.get('x')) - x)), abs(fine(float(to.get('y')) - y))), fine(math.atan2(math.sin(d), math.cos(d))), ds]
    except Exception:
        return [BIG, BIG, BIG]


def split(x, y, h):
    """a pose: ticks and the rest in 1e-7 m"""
    try:
        t = [quant(x), quant(y)]
        return {'x': t[0], 'y': t[1], 'h': quant_h(h), 'fx': fine(x - t[0] * 1e-4), 'fy': fine(y - t[1] * 1e-4)}
    except Exception:
        return {'x': BIG, 'y': BIG, 'h': 0, 'fx': 0, 'fy': 0}


def ends(lib, gs):
    """where a road starts and ends"""
    try:
        return {'start': split(*[float(gs[0].get(k)) for k in ('x', 'y', 'hdg')]), 'end': split(*follow(lib, gs[-1])[:3])}
    except Exception:
        return {'start': split(None, 0, 0), 'end': split(None, 0, 0)}


def road_doc(el, lib=None):
    geos = []
    far = {}
    for pv in kids(el, 'planView'):
        for g in pv:
            geos.append({'tag': g.tag, 'ak': ' '.join(sorted(g.attrib)), 'tags': tags(g),
                         't': [canon('x', g.get(k)) for k in ('x', 'y', 'hdg', 'length')],
                         'p': {'s': quant(g.get('s')), 'x': quant(g.get('x')), 'y': quant(g.get('y')),
                               'h': quant_h(g.get('hdg')), 'len': max(-BIG // 6, min(BIG // 6, quant(g.get('length'))))},
                         'kids': tagged(g)})
        if lib is not None:
            for d, g, to in zip(geos, list(pv), list(pv)[1:] + [el]):
                d['gap'] = gap(lib, g, to)
            far = {'ends': ends(lib, list(pv))}
    secs = []
    for ls in kids(el, 'lanes'):
        for s in ls:
            d = {'tag': s.tag, 'at': attrs(s), 'tags': tags(s), 'left': [], 'center': [], 'right': []}
            for side in s:
                d.setdefault(side.tag, []).extend(lane_doc(l) for l in side)
            d = dict((k, d[k]) for k in ('tag', 'at', 'tags', 'left', 'center', 'right'))
            secs.append(d)
    links = []
    for l in kids(el, 'link'):
        links += tagged(l)
    sigs = [{'at': attrs(s), 'tags': tags(s)} for c in kids(el, 'signals') for s in c]
    objs = []
    for c in kids(el, 'objects'):
        for o in c:
            objs.append({'at': attrs(o), 'tags': tags(o),
                         'q': {'s': quant(o.get('s')), 't': quant(o.get('t')), 'h': quant(o.get('hdg'))},
                         'reps': [{'at': attrs(r), 'q': {'s': quant(r.get('s')), 'len': quant(r.get('length')),
                                                         't0': quant(r.get('tStart')), 't1': quant(r.get('tEnd'))}}
                                  for r in kids(o, 'repeat')]})
    at = attrs(el)
    ln = quant(at.pop('length', 'x'))
    return {'tag': el.tag, 'at': at, 'len': ln, 'tags': tags(el), 'links': links, 'geos': geos, 'secs': secs,
            'sigs': sigs, 'objs': objs, **far}


def junc_doc(el):
    return {'at': attrs(el), 'conns': [{'tag': c.tag, 'at': attrs(c), 'tags': tags(c), 'll': [attrs(l) for l in c]} for c in el]}


CONTAINERS = set('OpenDRIVE link planView lanes left center right signals objects'.split())


def shape(el):
    """which elements contain which, attributes of mere containers, and text"""
    out = set()
    for e in el.iter():
        if e.tag in CONTAINERS:
            out.update('%s@%s' % (e.tag, k) for k in e.attrib)
        if (e.text or '').strip() or (e.tail or '').strip():
            out.add('%s has text' % e.tag)
        out.update('%s>%s' % (e.tag, c.tag) for c in e)
    return sorted(out)


def net_doc(el, lib):
    hdr = [attrs(h) for h in kids(el, 'header')]
    for h in hdr:
        h['date'] = 'present' if h.get('date') else 'missing'
    return {'tag': el.tag, 'tags': tags(el), 'hdr': hdr, 'shape': shape(el),
            'roads': [road_doc(r, lib) for r in kids(el, 'road')],
            'juncs': [junc_doc(j) for j in kids(el, 'junction')]}


# the public signatures: parameters in order, with their documented defaults
API = {}
for _l in '''
Line length
Arc curvature length=None angle=None
Spiral curvstart curvend length=None angle=None cdot=None
ParamPoly3 au bu cu du av bv cv dv prange='normalized' length=None
PlanView x_start=None y_start=None h_start=None
add_geometry geom heading=None
set_start_point x_start=0 y_start=0 h_start=0
adjust_geometries from_end=False
get_end_data x y h
RoadMark marking_type width=None length=None space=None toffset=None soffset=0 rule=None color=@RoadMarkColor.standard marking_weight=@RoadMarkWeight.standard height=0.02 laneChange=None
Lane lane_type=@LaneType.driving a=0 b=0 c=0 d=0 soffset=0
standard_lane offset=3 rm=@generators.STD_ROADMARK_BROKEN
RoadLine width=0 length=0 space=0 toffset=0 soffset=0 rule=None color=None
Dependency id type
add_roadmark roadmark
LaneSection s centerlane
add_left_lane lane
add_right_lane lane
add_link predlane succlane
add_lanesection lanesection lanelinks=None
Road road_id planview lanes road_type=-1 name=None rule=None
add_successor element_type element_id contact_point=None lane_offset=0
add_predecessor element_type element_id contact_point=None lane_offset=0
add_neighbor element_type element_id direction
Signal s t country Type subtype='-1' id=None name=None dynamic=@Dynamic.no value=None unit=None zOffset=1.5 orientation=@Orientation.positive hOffset=0 pitch=0 roll=0 height=None width=None
Object s t Type=@ObjectType.none subtype=None id=None name=None dynamic=@Dynamic.no zOffset=0 orientation=@Orientation.none hdg=0 pitch=0 roll=0 width=None length=None height=None radius=None validLength=None
repeat repeatLength repeatDistance sStart=None tStart=None tEnd=None heightStart=None heightEnd=None zOffsetStart=None zOffsetEnd=None widthStart=None widthEnd=None lengthStart=None lengthEnd=None radiusStart=None radiusEnd=None
add_object_roadside road_object_prototype repeatDistance sOffset=0 tOffset=0 side=@RoadSide.both
OpenDrive name
Junction name id
Connection incoming_road connecting_road contact_point id=None
add_lanelink in_lane out_lane
write_xml filename=None prettyprint=True
create_road geometry id left_lanes=1 right_lanes=1 road_type=-1 center_road_mark=@generators.STD_ROADMARK_SOLID lane_width=3
create_straight_road road_id length=100 junction=-1 n_lanes=1 lane_offset=3
create_cloth_arc_cloth arc_curv arc_angle cloth_angle r_id junction=1 cloth_start=@generators.STD_START_CLOTH n_lanes=1 lane_offset=3
create_junction_roads roads angles r junction=1 spiral_part=1/3 arc_part=1/3 startnum=100
create_junction junction_roads id roads
create_lane_links road1 road2
'''.strip().split('\n'):
    _w = _l.split()
    API[_w[0]] = [tuple(x.split('=')) for x in _w[1:]]


class Run(object):
    def __init__(self, lib, pid=''):
        self.p = lib
        self.pid = pid
        self.n = 0
        self.how = 0
        self.o = {}
        self.asked = {}
        self.lent, self.kept = [], {}

    # ---- arguments
    def once(self, handles):
        """a list whose owner empties it after the call"""
        self.lent.append([self.o[h] for h in handles])
        return self.lent[-1]

    def again(self, handles):
        """a list that is handed over every time these are meant"""
        return self.kept.setdefault(tuple(handles), [self.o[h] for h in handles])

    def num(self, v):
        if isinstance(v, dict):            # a number as events (and the models) write it
            v = '~' if v['s'] == '~' else v['q']
        if v == '~':
            return None
        if isinstance(v, int):
            return v // 10000 if v % 10000 == 0 else v / 10000.0
        if v.startswith('f:'):
            return float(v[2:])
        if v.startswith('i:'):
            return int(v[2:])
        if v[:2] in ('n:', 'm:'):          # numpy's numbers
            import numpy
            return numpy.float64(v[2:]) if v[0] == 'n' else numpy.int64(v[2:])
        return float(v)

    def rec(self, v):
        x = self.num(v)
        return {'s': '~', 'q': 0} if x is None else {'s': text(x), 'q': quant(x)}

    def ident(self, v):
        """ids are written as texts; unless the call says txt they are passed as numbers if they are one"""
        if v == '~':
            return None
        if self.txt:
            return v
        try:
            return int(v) if str(int(v)) == v else v
        except ValueError:
            return v

    def jnum(self, v):
        """junction numbers: the number -1 means none, so it is always passed as a number"""
        return -1 if v == '-1' else self.ident(v)

    def opt(self, v):
        return None if v == '~' else v

    def enum(self, cls, v):
        return None if v == '~' else getattr(getattr(self.p, cls), v)

    def register_road(self, h, road):
        """the road and, where the library shows them, its parts (a program that uses a part which is not there fails)"""
        o = self.o
        o[h] = road
        o[h + '.pv'] = getattr(road, 'planview', None)
        o[h + '.ln'] = getattr(road, 'lanes', None)
        for s in getattr(o[h + '.ln'], 'lanesections', [])[:1]:
            o[h + '.s0'] = s
            o[h + '.c'] = getattr(s, 'centerlane', None)
            for i, l in enumerate(getattr(s, 'leftlanes', [])):
                o['%s.l%d' % (h, i + 1)] = l
            for i, l in enumerate(getattr(s, 'rightlanes', [])):
                o['%s.r%d' % (h, i + 1)] = l

    def curv(self, r):
        return 0 if r == 0 else 1.0 / (r / 10000.0)

    FLAGS = {'Arc': {'hl': 'len', 'ha': 'ang'}, 'Spiral': {'hl': 'len', 'ha': 'ang', 'hc': 'rl'}, 'Poly': {'hl': 'len'},
             'Plan': {'gx': 'x', 'gy': 'y', 'gh': 'hd'}}

    def plain(self, c):
        """calls written by the models are events already: take them back to what the user would write"""
        c = dict(c)
        for k, v in c.items():
            if isinstance(v, dict) and set(v) == {'s', 'q'}:
                c[k] = '~' if v['s'] == '~' else v['q']
        for k, a in self.FLAGS.get(c['op'], {}).items():
            if k in c and not c[k]:
                c[a] = '~'
        return c

    def default(self, v):
        if not v.startswith('@'):
            return eval(v, {})
        x = self.p
        for k in v[1:].split('.'):
            x = getattr(x, k)
        return x

    def use(self, _of, _name, **given):
        """one public call, made in one of the ways in which a user can write it"""
        f = getattr(_of, _name)
        sig = API[_name]
        assert set(given) <= set(x[0] for x in sig), (_name, given)
        if self.how == 2:                                    # everything by keyword
            return f(**given)
        args = []
        last = max([i for i, x in enumerate(sig) if x[0] in given] + [-1])
        for i, x in enumerate(sig):
            if self.how == 0 and len(x) > 1:                 # optional ones by keyword
                break
            if x[0] in given:
                args.append(given.pop(x[0]))
            elif self.how == 3 and i < last:                 # everything by position, defaults in the gaps
                args.append(self.default(x[1]))
            else:                                            # by position as far as possible
                break
        return f(*args, **given)

    # ---- calls: each resolves into ev (before calling) and returns observations
    def call(self, c, ev):
        self.txt = bool(c.get('txt'))
        self.n += 1
        ev['how'] = self.how = c['how'] if 'how' in c else zlib.crc32(('%s/%d' % (self.pid, self.n)).encode()) % 4
        c = self.plain(c)
        try:
            getattr(self, 'do_' + c['op'])(c, ev)
        finally:
            for x in self.lent:
                x.clear()
            self.lent = []

    def do_Line(self, c, ev):
        ev['len'] = self.rec(c['len'])
        self.o[c['h']] = self.use(self.p, 'Line', length=self.num(c['len']))

    def do_Arc(self, c, ev):
        k = self.curv(c['r']) if 'flat' not in c else (1 if c['flat'] > 0 else -1) * 10.0 ** -abs(c['flat'])     # almost straight
        ev['k'] = text(k)
        ev['hl'], ev['ha'] = c['len'] != '~', c['ang'] != '~'
        ev['len'] = self.rec(c['len'])['q'] if ev['hl'] else 0
        ev['ang'] = c['ang'] if ev['ha'] else 0
        a = None if c['ang'] == '~' else c['ang'] / 1e8
        kw = {}
        if ev['hl']:
            kw['length'] = self.num(c['len'])
        if ev['ha']:
            kw['angle'] = a
        self.o[c['h']] = self.use(self.p, 'Arc', curvature=k, **kw)

    def do_Spiral(self, c, ev):
        k0, k1 = self.curv(c['r0']), self.curv(c['r1'])
        if 'noise' in c:                                   # curvatures that differ by rounding errors only
            k1 *= 1 + 10.0 ** -c['noise']
        ev['k0'], ev['k1'] = text(k0), text(k1)
        ev['hl'], ev['ha'], ev['hc'] = c['len'] != '~', c['ang'] != '~', c['rl'] != '~'
        ev['len'] = self.rec(c['len'])['q'] if ev['hl'] else 0
        ev['ang'] = c['ang'] if ev['ha'] else 0
        ev['rl'] = c['rl'] if ev['hc'] else 0
        a = None if c['ang'] == '~' else c['ang'] / 1e8
        # a curvature rate is given through the length rl at which it leads from k0 to k1
        cd = None if c['rl'] == '~' else (0 if c['rl'] == 0 else (k1 - k0) / (c['rl'] / 10000.0))
        kw = dict((n, v) for n, v in (('length', self.num(c['len'])), ('angle', a), ('cdot', cd)) if v is not None)
        self.o[c['h']] = self.use(self.p, 'Spiral', curvstart=k0, curvend=k1, **kw)

    def do_Poly(self, c, ev):
        p = 1.0 if c['pr'] == 'normalized' or c['len'] == '~' else c['len'] / 10000.0
        co = []
        for cs in (c['u'], c['v']):
            co += [cs[i] / 10000.0 / p ** i for i in range(4)]
        ev['at'] = dict(zip('aU bU cU dU aV bV cV dV'.split(), [text(x) for x in co]))
        ev['hl'] = c['len'] != '~'
        ev['len'] = c['len'] if ev['hl'] else 0
        kw = {}
        if c['pr'] != 'normalized' or c.get('explicit'):
            kw['prange'] = c['pr']
        if ev['hl']:
            kw['length'] = c['len'] / 10000.0
        self.o[c['h']] = self.use(self.p, 'ParamPoly3', **dict(kw, **dict(zip('au bu cu du av bv cv dv'.split(), co))))

    def pose(self, r):
        return {'x': quant(r[0]), 'y': quant(r[1]), 'h': quant_h(r[2])}

    def do_GEnd(self, c, ev):
        """forward, together with the first answer given to the same question"""
        r = self.o[c['g']].get_end_data(c['x'] / 1e4, c['y'] / 1e4, c['hd'] / 1e8)
        ev['obs'] = self.pose(r)
        ev['olen'] = quant(r[3])
        first = self.asked.setdefault((c['g'], c['x'], c['y'], c['hd']), (ev['obs'], ev['olen']))
        ev['again'], ev['alen'] = first

    def do_GStart(self, c, ev):
        """backward, then forward from there"""
        g = self.o[c['g']]
        r = g.get_start_data(c['x'] / 1e4, c['y'] / 1e4, c['hd'] / 1e8)
        f = g.get_end_data(r[0], r[1], r[2] + math.pi)
        ev['obs'], ev['fw'] = self.pose(r), self.pose(f)
        ev['olen'], ev['flen'] = quant(r[3]), quant(f[3])

    def do_GBack(self, c, ev):
        """forward, then backward from the reversed end, with the library's own numbers"""
        g = self.o[c['g']]
        r = g.get_end_data(c['x'] / 1e4, c['y'] / 1e4, c['hd'] / 1e8)
        b = g.get_start_data(r[0], r[1], r[2] + math.pi)
        ev['obs'] = self.pose(b)
        ev['olen'], ev['blen'] = quant(r[3]), quant(b[3])

    def do_Plan(self, c, ev):
        ev['gx'], ev['gy'], ev['gh'] = c['x'] != '~', c['y'] != '~', c['hd'] != '~'
        ev['x'], ev['y'] = self.rec(c['x'])['q'], self.rec(c['y'])['q']
        ev['hd'] = c['hd'] if ev['gh'] else 0
        h = None if c['hd'] == '~' else (0 if c['hd'] == 0 else c['hd'] / 1e8)
        if not (ev['gx'] or ev['gy'] or ev['gh']):
            self.o[c['h']] = self.p.PlanView()
        else:
            if ev['gx'] and ev['gy'] and ev['gh']:
                ev['st'] = [text(self.num(c['x'])), text(self.num(c['y'])), text(h)]
            kw = dict((n, v) for n, v in (('x_start', self.num(c['x'])), ('y_start', self.num(c['y'])), ('h_start', h)) if v is not None)
            self.o[c['h']] = self.use(self.p, 'PlanView', **kw)

    def do_PSet(self, c, ev):
        ev['x'], ev['y'], ev['hd'] = [0 if c[k] == '~' else c[k] for k in ('x', 'y', 'hd')]
        kw = dict((n, c[k] / d) for n, k, d in (('x_start', 'x', 1e4), ('y_start', 'y', 1e4), ('h_start', 'hd', 1e8)) if c[k] != '~')
        ev['st'] = [text(kw.get(n, 0)) for n in ('x_start', 'y_start', 'h_start')]
        self.use(self.o[c['p']], 'set_start_point', **kw)

    def do_PGeo(self, c, ev):
        if 'hd' in c:
            self.use(self.o[c['p']], 'add_geometry', geom=self.o[c['g']], heading=c['hd'] / 1e8)
        else:
            self.use(self.o[c['p']], 'add_geometry', geom=self.o[c['g']])

    def do_PStart(self, c, ev):
        ev['obs'] = self.pose(self.o[c['p']].get_start_point())

    def do_PEnd(self, c, ev):
        ev['obs'] = self.pose(self.o[c['p']].get_end_point())

    def do_PLen(self, c, ev):
        ev['olen'] = quant(self.o[c['p']].get_total_length())

    def do_PAdj(self, c, ev):
        pv = self.o[c['p']]
        if c['set']:
            ev['st'] = [text(c['x'] / 1e4), text(c['y'] / 1e4), text(c['hd'] / 1e8)]
            self.use(pv, 'set_start_point', x_start=c['x'] / 1e4, y_start=c['y'] / 1e4, h_start=c['hd'] / 1e8)
        self.use(pv, 'adjust_geometries', **({'from_end': True} if c['back'] else {}))

    def do_PEl(self, c, ev):
        import xml.etree.ElementTree as ET
        w = ET.Element('road')
        w.append(self.o[c['p']].get_element())
        ev['geos'] = road_doc(w, self.p)['geos']

    def do_REnd(self, c, ev):
        ev['obs'] = self.pose(self.o[c['r']].get_end_point())

    def do_Mark(self, c, ev):
        for k in ('width', 'length', 'space', 'toffset', 'soffset', 'height'):
            ev[k] = self.rec(c[k])['s']
        kw = {}
        for k in ('width', 'length', 'space', 'toffset'):
            if c[k] != '~':
                kw[k] = self.num(c[k])
        for k, n in (('soffset', 'soffset'), ('height', 'height')):
            if c[k] != '~':
                kw[n] = self.num(c[k])
        for k, n, e in (('rule', 'rule', 'MarkRule'), ('color', 'color', 'RoadMarkColor'),
                        ('weight', 'marking_weight', 'RoadMarkWeight'), ('change', 'laneChange', 'LaneChange')):
            if c[k] != '~':
                kw[n] = self.enum(e, c[k])
        self.o[c['h']] = self.use(self.p, 'RoadMark', marking_type=self.enum('RoadMarkType', c['type']), **kw)

    def do_RLine(self, c, ev):
        """a line of a road mark, made and shown on its own"""
        kw = {}
        for k in ('width', 'length', 'space', 'toffset', 'soffset'):
            ev[k] = self.rec(c[k])['s']
            if c[k] != '~':
                kw[k] = self.num(c[k])
        for k, e in (('rule', 'MarkRule'), ('color', 'RoadMarkColor')):
            if c[k] != '~':
                kw[k] = self.enum(e, c[k])
        el = self.use(self.p, 'RoadLine', **kw).get_element()
        ev['el'] = {'tag': el.tag, 'at': attrs(el), 'tags': tags(el)}

    def do_Dep(self, c, ev):
        """a dependency, shown on its own"""
        el = self.use(self.p, 'Dependency', id=self.ident(c['id']), type=c['type']).get_element()
        ev['el'] = {'tag': el.tag, 'at': attrs(el), 'tags': tags(el)}

    def do_Lane(self, c, ev):
        kw = {}
        for k, n in (('a', 'a'), ('b', 'b'), ('c', 'c'), ('d', 'd'), ('so', 'soffset')):
            ev[k] = self.rec(c[k])
            if c[k] != '~':
                kw[n] = self.num(c[k])
        if c['type'] != '~':
            kw['lane_type'] = self.enum('LaneType', c['type'])
        self.o[c['h']] = self.use(self.p, 'Lane', **kw)

    def do_StdLane(self, c, ev):
        ev['a'] = self.rec(c['a'])
        kw = {} if c['m'] == '~' else {'rm': self.o[c['m']]}
        if c['a'] != '~':
            kw['offset'] = self.num(c['a'])
        self.o[c['h']] = self.use(self.p.generators, 'standard_lane', **kw)

    def do_LMark(self, c, ev):
        self.use(self.o[c['l']], 'add_roadmark', roadmark=self.o[c['m']])

    def do_LLink(self, c, ev):
        """a link given to a lane by hand"""
        if self.how == 2:
            self.o[c['l']].add_link(link_type=c['tag'], id=c['id'])
        else:
            self.o[c['l']].add_link(c['tag'], c['id'])

    def do_LkGet(self, c, ev):
        """what a road or a lane says of its links, and what it exports"""
        ls = self.o[c['x']].links
        ev['el'] = tagged(ls.get_element())
        name = lambda v: '~' if v is None else v if isinstance(v, str) else str(getattr(v, 'name', v))
        ev['obs'] = {'predecessor': {'id': name(ls.get_predecessor_id()), 'et': name(ls.get_predecessor_type()), 'cp': name(ls.get_predecessor_contact_point())},
                     'successor': {'id': name(ls.get_successor_id()), 'et': name(ls.get_successor_type()), 'cp': name(ls.get_successor_contact_point())}}

    def do_Sec(self, c, ev):
        ev['s'] = self.rec(c['s'])
        self.o[c['h']] = self.use(self.p, 'LaneSection', s=self.num(c['s']), centerlane=self.o[c['c']])

    def do_AddL(self, c, ev):
        self.use(self.o[c['s']], 'add_left_lane', lane=self.o[c['l']])

    def do_AddR(self, c, ev):
        self.use(self.o[c['s']], 'add_right_lane', lane=self.o[c['l']])

    def do_Lanes(self, c, ev):
        self.o[c['h']] = self.p.Lanes()

    def do_Linker(self, c, ev):
        self.o[c['h']] = self.p.LaneLinker()

    def do_LPair(self, c, ev):
        self.use(self.o[c['k']], 'add_link', predlane=self.o[c['p']], succlane=self.o[c['s']])

    def do_AddSec(self, c, ev):
        ks = self.once(c['ks'])
        if c['mode'] == 'none':
            self.use(self.o[c['n']], 'add_lanesection', lanesection=self.o[c['s']])
        elif c['mode'] == 'one':
            self.use(self.o[c['n']], 'add_lanesection', lanesection=self.o[c['s']], lanelinks=ks[0])
        else:
            self.use(self.o[c['n']], 'add_lanesection', lanesection=self.o[c['s']], lanelinks=ks)

    def do_Road(self, c, ev):
        kw = {}
        if c['type'] != '~':
            kw['road_type'] = self.jnum(c['type'])
        if c['name'] != '~':
            kw['name'] = c['name']
        if c['rule'] != '~':
            kw['rule'] = c['rule']
        self.o[c['h']] = self.use(self.p, 'Road', road_id=self.ident(c['id']), planview=self.o[c['plan']], lanes=self.o[c['lanes']], **kw)

    def link(self, c, ev, meth):
        kw = {}
        if c['cp'] != '~':
            kw['contact_point'] = self.enum('ContactPoint', c['cp'])
        if c['off'] != 0:
            kw['lane_offset'] = c['off']
        self.use(self.o[c['r']], meth, element_type=self.enum('ElementType', c['et']), element_id=self.ident(c['id']), **kw)

    def do_Succ(self, c, ev):
        self.link(c, ev, 'add_successor')

    def do_Pred(self, c, ev):
        self.link(c, ev, 'add_predecessor')

    def do_Neigh(self, c, ev):
        self.use(self.o[c['r']], 'add_neighbor', element_type=self.enum('ElementType', c['et']), element_id=self.ident(c['id']), direction=self.enum('Direction', c['dir']))

    def do_Sig(self, c, ev):
        kw = {}
        for k in ('zo', 'ho', 'pitch', 'roll', 'height', 'width', 'value'):
            ev[k] = self.rec(c[k])['s']
        for k, n in (('zo', 'zOffset'), ('ho', 'hOffset'), ('pitch', 'pitch'), ('roll', 'roll'),
                     ('height', 'height'), ('width', 'width'), ('value', 'value')):
            if c[k] != '~':
                kw[n] = self.num(c[k])
        for k, n in (('sub', 'subtype'), ('name', 'name'), ('unit', 'unit')):
            if c[k] != '~':
                kw[n] = None if c[k] == '~~' else c[k]
        if c['id'] != '~':
            kw['id'] = self.ident(c['id'])
        if c['dyn'] != '~':
            kw['dynamic'] = self.enum('Dynamic', c['dyn'])
        if c['ori'] != '~':
            kw['orientation'] = self.enum('Orientation', c['ori'])
        ev['s'], ev['t'] = self.rec(c['s']), self.rec(c['t'])
        ev['cntU'] = c['cnt'].upper()
        self.o[c['h']] = self.use(self.p, 'Signal', s=self.num(c['s']), t=self.num(c['t']), country=c['cnt'], Type=c['type'], **kw)

    def do_Obj(self, c, ev):
        kw = {}
        for k in ('zo', 'hdg', 'pitch', 'roll', 'width', 'length', 'height', 'radius', 'vl'):
            ev[k] = self.rec(c[k])['s']
        for k, n in (('zo', 'zOffset'), ('hdg', 'hdg'), ('pitch', 'pitch'), ('roll', 'roll'), ('width', 'width'),
                     ('length', 'length'), ('height', 'height'), ('radius', 'radius'), ('vl', 'validLength')):
            if c[k] != '~':
                kw[n] = self.num(c[k])
        for k, n in (('sub', 'subtype'), ('name', 'name')):
            if c[k] != '~':
                kw[n] = c[k]
        if c['id'] != '~':
            kw['id'] = self.ident(c['id'])
        if c['dyn'] != '~':
            kw['dynamic'] = self.enum('Dynamic', c['dyn'])
        if c['ori'] != '~':
            kw['orientation'] = self.enum('Orientation', c['ori'])
        if c['type'] != '~':
            kw['Type'] = self.enum('ObjectType', c['type']) if c['typeE'] else c['type']
        ev['s'], ev['t'] = self.rec(c['s']), self.rec(c['t'])
        self.o[c['h']] = self.use(self.p, 'Object', s=self.num(c['s']), t=self.num(c['t']), **kw)

    REP = 's tStart tEnd heightStart heightEnd zOffsetStart zOffsetEnd widthStart widthEnd lengthStart lengthEnd radiusStart radiusEnd'.split()

    def do_Rep(self, c, ev):
        ev['len'], ev['dist'] = self.rec(c['len'])['s'], self.rec(c['dist'])['s']
        kw = {}
        ev['a'] = {}
        for k, v in (c['a'] or {}).items():
            kw['sStart' if k == 's' else k] = self.num(v)
            ev['a'][k] = self.rec(v)['s']
        self.use(self.o[c['o']], 'repeat', repeatLength=self.num(c['len']), repeatDistance=self.num(c['dist']), **kw)

    def ids(self, xs):
        return [str(x.get_element().get('id')) for x in xs]

    def do_AddSig(self, c, ev):
        xs = self.once(c['xs'])
        self.o[c['r']].add_signal(xs[0] if c['mode'] == 'one' else xs)
        ev['ids'] = self.ids(xs)

    def do_AddObj(self, c, ev):
        xs = self.once(c['xs'])
        self.o[c['r']].add_object(xs[0] if c['mode'] == 'one' else xs)
        ev['ids'] = self.ids(xs)

    def do_Side(self, c, ev):
        for k in ('dist', 'so', 'to'):
            ev[k] = self.rec(c[k])
        kw = {}
        if c['so'] != '~':
            kw['sOffset'] = self.num(c['so'])
        if c['to'] != '~':
            kw['tOffset'] = self.num(c['to'])
        if c['side'] != '~':
            kw['side'] = self.enum('RoadSide', c['side'])
        ev['ids'] = []
        ev['proto'] = digest(self.o[c['o']].get_element())
        try:
            self.use(self.o[c['r']], 'add_object_roadside', road_object_prototype=self.o[c['o']], repeatDistance=self.num(c['dist']), **kw)
        finally:
            ev['proto2'] = digest(self.o[c['o']].get_element())
            el = self.o[c['r']].get_element()
            ev['ids'] = [str(x.get('id')) for k in el if k.tag == 'objects' for x in k]

    def do_OEl(self, c, ev):
        """export of a single signal or object that need not belong to a road"""
        el = self.o[c['o']].get_element()
        ev['el'] = {'at': attrs(el), 'tags': tags(el), 'reps': [attrs(r) for r in el]}

    def do_Net(self, c, ev):
        self.o[c['h']] = self.use(self.p, 'OpenDrive', name=c['name'])

    def do_AddRoad(self, c, ev):
        self.o[c['n']].add_road(self.o[c['r']])

    def do_AddJunc(self, c, ev):
        self.o[c['n']].add_junction(self.o[c['j']])

    def do_Junc(self, c, ev):
        self.o[c['h']] = self.use(self.p, 'Junction', name=c['name'], id=self.ident(c['id']))

    def do_Conn(self, c, ev):
        cid = c['id']
        if isinstance(cid, dict):
            have = [x.get('id') for x in self.o[cid['j']].get_element()]
            taken = cid.get('taken', -1)
            n, k = 0, cid.get('fresh', 0)
            while not 0 <= taken < len(have):
                if str(n) not in have:
                    if k == 0:
                        break
                    k -= 1
                n += 1
            cid = have[taken] if 0 <= taken < len(have) else str(n)
        ev['id'] = cid
        kw = {} if cid == '~' else {'id': self.ident(cid)}
        self.o[c['h']] = self.use(self.p, 'Connection', incoming_road=self.ident(c['inc']), connecting_road=self.ident(c['con']),
                                  contact_point=self.enum('ContactPoint', c['cp']), **kw)

    def do_CLink(self, c, ev):
        ev['fs'], ev['ts'] = str(c['f']), str(c['t'])
        self.use(self.o[c['c']], 'add_lanelink', in_lane=c['f'], out_lane=c['t'])

    def do_AddConn(self, c, ev):
        self.o[c['j']].add_connection(self.o[c['c']])
        ev['got'] = str(self.o[c['c']].get_element().get('id'))

    def do_Adjust(self, c, ev):
        self.o[c['n']].adjust_roads_and_lanes()

    def do_Place(self, c, ev):
        self.o[c['n']].adjust_startpoints()

    def do_Match(self, c, ev):
        self.use(self.p, 'create_lane_links', road1=self.o[c['a']], road2=self.o[c['b']])

    def do_Export(self, c, ev):
        el = self.o[c['n']].get_element()
        ev['doc'] = net_doc(el, self.p)
        ev['dig'], ev['digm'] = digest(el), digest(el, True)

    def do_REl(self, c, ev):
        ev['doc'] = road_doc(self.o[c['r']].get_element(), self.p)

    def do_JEl(self, c, ev):
        ev['doc'] = junc_doc(self.o[c['j']].get_element())

    def do_Write(self, c, ev):
        import xml.etree.ElementTree as ET
        net = self.o[c['n']]
        ev['before'] = digest(net.get_element())
        name = c['file']
        path = name if name != '~' else net.name + '.xodr'
        if c.get('run'):
            path = os.path.join('viewer', 'resources', 'xodr', 'pythonroad.xodr')
        if os.path.dirname(path) and not os.path.isdir(os.path.dirname(path)):
            os.makedirs(os.path.dirname(path))
        if c['prior'] != '~':
            with open(path, 'wb') as f:
                f.write(c['prior'].encode('utf-8') * c['times'])
        kw = {}
        if name != '~':
            kw['filename'] = name
        if c['pretty'] != '~':
            kw['prettyprint'] = c['pretty'] == 'yes'
        if c.get('run'):
            # the document for the viewer; the viewer itself is not started
            system, os.system = os.system, lambda command: 0
            try:
                self.p.run_road(net, 'viewer')
            finally:
                os.system = system
        else:
            self.use(net, 'write_xml', **kw)
        ev['after'] = digest(net.get_element())
        ev['layout'] = 'unreadable'
        try:
            root = ET.parse(path).getroot()
            ev['file_'], ev['layout'] = digest(root), layout(root)
        except Exception as e:
            ev['file_'] = 'unreadable: ' + type(e).__name__

    def do_Show(self, c, ev):
        """the document on the terminal"""
        import io
        import xml.etree.ElementTree as ET
        net = self.o[c['n']]
        el = net.get_element()
        ev['before'] = digest(el)
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            self.p.prettyprint(el)
            text = sys.stdout.getvalue()
        finally:
            sys.stdout = out
        ev['kept'], ev['after'] = digest(el), digest(net.get_element())
        try:
            ev['shown'] = digest(ET.fromstring(text))
        except Exception as e:
            ev['shown'] = 'unreadable: ' + type(e).__name__

    # ---- generators
    def do_GenRoad(self, c, ev):
        ev['w'] = self.rec(c['w'])
        g = self.once(c['gs'])
        kw = {}
        if c['left'] >= 0:
            kw['left_lanes'] = c['left']
        if c['right'] >= 0:
            kw['right_lanes'] = c['right']
        if c['type'] != '~':
            kw['road_type'] = self.jnum(c['type'])
        if c['cm'] != '~':
            kw['center_road_mark'] = self.o[c['cm']]
        if c['w'] != '~':
            kw['lane_width'] = self.num(c['w'])
        r = self.use(self.p, 'create_road', geometry=g[0] if c['single'] else g, id=self.ident(c['id']), **kw)
        self.register_road(c['h'], r)

    def do_GenStraight(self, c, ev):
        ev['len'], ev['w'] = self.rec(c['len']), self.rec(c['w'])
        kw = {}
        if c['len'] != '~':
            kw['length'] = self.num(c['len'])
        if c['type'] != '~':
            kw['junction'] = self.jnum(c['type'])
        if c['n'] >= 0:
            kw['n_lanes'] = c['n']
        if c['w'] != '~':
            kw['lane_offset'] = self.num(c['w'])
        self.register_road(c['h'], self.use(self.p, 'create_straight_road', road_id=self.ident(c['id']), **kw))

    def do_GenCloth(self, c, ev):
        ev['w'] = self.rec(c['w'])
        ev['k'] = text(self.curv(c["r"]))
        kw = {}
        if c['type'] != '~':
            kw['junction'] = self.jnum(c['type'])
        if c['n'] >= 0:
            kw['n_lanes'] = c['n']
        if c['w'] != '~':
            kw['lane_offset'] = self.num(c['w'])
        if c['k0'] != '~':
            kw['cloth_start'] = self.curv(c['k0'])
        k0 = float(self.curv(c['k0'])) if c['k0'] != '~' else 1e-9
        ev['k0s'], ev['k0n'], ev['kn'] = text(k0), text(-k0), text(-float(self.curv(c["r"])))
        ev['k0g'] = c['k0'] != '~'
        ev['k0'] = c['k0'] if c['k0'] != '~' else 0
        self.register_road(c['h'], self.use(
            self.p, 'create_cloth_arc_cloth', arc_curv=self.curv(c['r']), arc_angle=c['arc'] / 1e8, cloth_angle=c['cloth'] / 1e8, r_id=self.ident(c['id']), **kw))

    def do_GenJR(self, c, ev):
        rs = self.again(c['roads'])
        kw = {}
        if c['jid'] != '~':
            kw['junction'] = self.jnum(c['jid'])
        if c['sp'] >= 0:
            kw['spiral_part'] = c['sp'] / 1e8
            kw['arc_part'] = c['ap'] / 1e8
        if c['start'] >= 0:
            kw['startnum'] = c['start']
        ev['k'] = text(1.0 / (c['rad'] / 10000.0))
        ev['kn'] = text(-1.0 / (c['rad'] / 10000.0))
        out = self.use(self.p, 'create_junction_roads', roads=rs, angles=[math.radians(a) for a in c['angs']], r=c['rad'] / 10000.0, **kw)
        ev['nroads'] = len(out)
        self.kept[tuple('%s.%d' % (c['h'], i) for i in range(len(out)))] = out
        for i, r in enumerate(out):
            self.register_road('%s.%d' % (c['h'], i), r)

    def do_GenJ(self, c, ev):
        self.o[c['h']] = self.use(self.p, 'create_junction', junction_roads=self.again(c['jr']), id=self.ident(c['id']), roads=self.again(c['roads']))


def child(prog, wfd):
    import pyodrx
    sys.stdout = Sink()
    out = os.fdopen(wfd, 'w', encoding='ascii')
    run = Run(pyodrx, prog['id'])
    for c in prog['calls']:
        ev = dict(c)
        try:
            run.call(c, ev)
            ev['out'] = 'ok'
        except Exception as e:
            ev['out'] = type(e).__name__
            ev['msg'] = str(e)[:120].encode('ascii', 'replace').decode('ascii')
        out.write(json.dumps(ev, ensure_ascii=True) + '\n')
        out.flush()
    out.write('END\n')
    out.flush()


def run_program(prog, scratch, limit):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            os.close(r)
            os.setsid()
            d = tempfile.mkdtemp(dir=scratch)
            os.chdir(d)
            gc.disable()
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
            child(prog, w)
            code = 0
        except BaseException as e:
            sys.stderr.write('executor: %s: %r\n' % (prog['id'], e))
        finally:
            os._exit(code)
    os.close(w)
    buf = []
    deadline = time.time() + limit
    timeout = False
    while True:
        left = deadline - time.time()
        if left <= 0:
            timeout = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timeout = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf.append(b)
    os.close(r)
    if timeout:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    text = b''.join(buf).decode('ascii')
    lines = text.split('\n')
    complete = 'END' in lines
    evs = []
    for l in lines[:-1] if not complete else lines:
        if l and l != 'END':
            evs.append(json.loads(l))
    if not complete and len(evs) < len(prog['calls']):
        ev = dict(prog['calls'][len(evs)])
        ev['out'] = 'Timeout' if timeout else 'Crash'
        evs.append(ev)
    return evs


def main():
    import pyodrx
    import numpy, scipy.integrate, scipy.special
    assert os.path.realpath(pyodrx.__file__).startswith(os.path.realpath(sys.path[0]) + '/'), pyodrx.__file__
    gc.collect()
    scratch = tempfile.mkdtemp(prefix='pyodrx-exec-')
    try:
        with open(sys.argv[1], encoding='utf-8') as f, open(sys.argv[2], 'w', encoding='ascii') as out:
            slow = 0
            for line in f:
                prog = json.loads(line)
                if slow >= 3:
                    break               # enough evidence; the rest of the programs get no verdict
                evs = run_program(prog, scratch, prog.get('limit', 20))
                slow += evs != [] and evs[-1]['out'] == 'Timeout'
                rec = dict((k, v) for k, v in prog.items() if k != 'calls')
                rec['calls'] = evs
                if 'twin' in prog:
                    tw = run_program({'id': prog['id'] + '/twin', 'calls': prog['twin']}, scratch, prog.get('limit', 20))
                    rec['twin'] = [{'op': 'Export', 'out': 'ok', 'n': e['n'], 'dig': e['dig'], 'digm': e['digm']}
                                   for e in tw if e['op'] == 'Export' and e['out'] == 'ok']
                out.write(json.dumps(rec, ensure_ascii=True) + '\n')
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    main()
