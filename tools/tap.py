"""Records the calls a script makes on pyodrx as a program of the specification's vocabulary.

usage: /opt/venv/bin/python -B tools/tap.py OUT.ndjson SCRIPT.py|TEST.py ...

Only the outermost calls count (what the library calls itself is its own business).  A test
file gives one program per test.  A call with no counterpart in the vocabulary is left out if it
only looks at something, and ends the recording otherwise.  The recorded programs are committed as
harness/usage.ndjson; checks run them like any other program.
"""
import sys, os, json, types, traceback, functools, inspect, tempfile, contextlib, io
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(1, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'harness'))
import pyodrx
from exec import API


class Unknown(Exception):
    pass


calls, names, keep, depth, count = [], {}, [], [0], [0]


def handle(x, h=None):
    count[0] += 1
    h = h or 'x%d' % count[0]
    names[id(x)] = h
    keep.append(x)
    return h


def parts(h, r):
    handle(r, h)
    handle(r.planview, h + '.pv')
    handle(r.lanes, h + '.ln')
    s = r.lanes.lanesections[0]
    handle(s, h + '.s0')
    handle(s.centerlane, h + '.c')
    for k, side in (('l', s.leftlanes), ('r', s.rightlanes)):
        for i, l in enumerate(side):
            handle(l, '%s.%s%d' % (h, k, i + 1))


def of(x):
    if id(x) not in names:
        if isinstance(x, pyodrx.RoadMark):           # the library's standard marks
            raise Unknown('a mark that was not made here')
        raise Unknown('an object that was not made here: %s' % type(x).__name__)
    return names[id(x)]


def num(v):
    if v is None:
        return '~'
    if isinstance(v, int):
        return 'i:%d' % v
    return 'f:%r' % float(v)


def tick(v, scale=1e4):
    return int(round(float(v) * scale))


def rad(k):
    # (curvatures next to nothing as nothing)
    return 0 if abs(k) < 2e-4 else tick(1.0 / k)


def word(v):
    return '~' if v is None else str(v)


def enum(v):
    return '~' if v is None else v.name


class Tap(object):
    """one method per call: the given arguments (by name) into a call"""
    def Line(self, a, x): return dict(op='Line', h=handle(x), len=num(a['length']))
    def Arc(self, a, x):
        return dict(op='Arc', h=handle(x), r=rad(a['curvature']), len='~' if a.get('length') is None else tick(a['length']),
                    ang='~' if a.get('angle') is None else tick(a['angle'], 1e8))
    def Spiral(self, a, x):
        k0, k1 = a['curvstart'], a['curvend']
        cd = a.get('cdot')
        return dict(op='Spiral', h=handle(x), r0=rad(k0), r1=rad(k1), len='~' if a.get('length') is None else tick(a['length']),
                    ang='~' if a.get('angle') is None else tick(a['angle'], 1e8), rl='~' if cd is None else 0 if cd == 0 else tick((k1 - k0) / cd))
    def ParamPoly3(self, a, x):
        p = 1.0 if a.get('prange', 'normalized') == 'normalized' or a.get('length') is None else a['length']
        return dict(op='Poly', h=handle(x), pr=a.get('prange', 'normalized'), len='~' if a.get('length') is None else tick(a['length']),
                    **dict((k, [tick(a[c + k] * p ** i) for i, c in enumerate('abcd')]) for k in 'uv'))
    def PlanView(self, a, x):
        g = lambda k, s=1e4: '~' if a.get(k) is None else tick(a[k], s)
        return dict(op='Plan', h=handle(x), x=g('x_start'), y=g('y_start'), hd=g('h_start', 1e8))
    def RoadMark(self, a, x):
        c = dict(op='Mark', h=handle(x), type=a['marking_type'].name)
        for k in ('width', 'length', 'space', 'toffset', 'soffset', 'height'):
            c[k] = num(a.get(k))
        for k, n in (('rule', 'rule'), ('color', 'color'), ('weight', 'marking_weight'), ('change', 'laneChange')):
            c[k] = enum(a.get(n))
        return c
    def Lane(self, a, x):
        return dict(op='Lane', h=handle(x), type=enum(a.get('lane_type')), a=num(a.get('a')), b=num(a.get('b')), c=num(a.get('c')), d=num(a.get('d')), so=num(a.get('soffset')))
    def standard_lane(self, a, x):
        return dict(op='StdLane', h=handle(x), a=num(a.get('offset')), m=of(a['rm']) if 'rm' in a else '~')
    def LaneSection(self, a, x): return dict(op='Sec', h=handle(x), s=num(a['s']), c=of(a['centerlane']))
    def Lanes(self, a, x): return dict(op='Lanes', h=handle(x))
    def LaneLinker(self, a, x): return dict(op='Linker', h=handle(x))
    def Road(self, a, x):
        return dict(op='Road', h=handle(x), id=word(a['road_id']), plan=of(a['planview']), lanes=of(a['lanes']), type=word(a.get('road_type')),
                    name=word(a.get('name')), rule=word(a.get('rule')))
    def OpenDrive(self, a, x): return dict(op='Net', h=handle(x), name=a['name'])
    def Junction(self, a, x): return dict(op='Junc', h=handle(x), name=a['name'], id=word(a['id']))
    def Connection(self, a, x):
        return dict(op='Conn', h=handle(x), inc=word(a['incoming_road']), con=word(a['connecting_road']), cp=enum(a['contact_point']), id=word(a.get('id')))
    def Signal(self, a, x):
        c = dict(op='Sig', h=handle(x), s=num(a['s']), t=num(a['t']), cnt=a['country'], type=str(a['Type']), id=word(a.get('id')), name=word(a.get('name')),
                 sub='~~' if 'subtype' in a and a['subtype'] is None else word(a.get('subtype')), dyn=enum(a.get('dynamic')), ori=enum(a.get('orientation')),
                 unit=word(a.get('unit')))
        for k, n in (('zo', 'zOffset'), ('ho', 'hOffset'), ('pitch', 'pitch'), ('roll', 'roll'), ('height', 'height'), ('width', 'width'), ('value', 'value')):
            c[k] = num(a.get(n))
        return c
    def Object(self, a, x):
        t = a.get('Type')
        c = dict(op='Obj', h=handle(x), s=num(a['s']), t=num(a['t']), id=word(a.get('id')), name=word(a.get('name')), sub=word(a.get('subtype')),
                 dyn=enum(a.get('dynamic')), ori=enum(a.get('orientation')), typeE=not isinstance(t, str), type='~' if t is None else t if isinstance(t, str) else t.name)
        for k, n in (('zo', 'zOffset'), ('hdg', 'hdg'), ('pitch', 'pitch'), ('roll', 'roll'), ('width', 'width'),
                     ('length', 'length'), ('height', 'height'), ('radius', 'radius'), ('vl', 'validLength')):
            c[k] = num(a.get(n))
        return c
    # methods: x is the object
    def add_geometry(self, a, x):
        return dict(op='PGeo', p=of(x), g=of(a['geom']), **({} if a.get('heading') is None else {'hd': tick(a['heading'], 1e8)}))
    def set_start_point(self, a, x):
        return dict(op='PSet', p=of(x), **dict((k, tick(a[n], s) if n in a else '~') for n, k, s in (('x_start', 'x', 1e4), ('y_start', 'y', 1e4), ('h_start', 'hd', 1e8))))
    def adjust_geometries(self, a, x): return dict(op='PAdj', p=of(x), set=False, back=bool(a.get('from_end')), x=0, y=0, hd=0)
    def get_end_data(self, a, x): return dict(op='GEnd', g=of(x), x=tick(a['x']), y=tick(a['y']), hd=tick(a['h'], 1e8))
    def add_roadmark(self, a, x): return dict(op='LMark', l=of(x), m=of(a['roadmark']))
    def lane_link(self, a, x): return dict(op='LLink', l=of(x), tag=a['link_type'], id=a['id'])
    def pair(self, a, x): return dict(op='LPair', k=of(x), p=of(a['predlane']), s=of(a['succlane']))
    def add_left_lane(self, a, x): return dict(op='AddL', s=of(x), l=of(a['lane']))
    def add_right_lane(self, a, x): return dict(op='AddR', s=of(x), l=of(a['lane']))
    def add_lanesection(self, a, x):
        k = a.get('lanelinks')
        return dict(op='AddSec', n=of(x), s=of(a['lanesection']), mode='none' if k is None else 'list' if isinstance(k, list) else 'one',
                    ks=[] if k is None else [of(y) for y in (k if isinstance(k, list) else [k])])
    def link(self, op, a, x):
        return dict(op=op, r=of(x), et=enum(a['element_type']), id=word(a['element_id']), cp=enum(a.get('contact_point')), off=a.get('lane_offset', 0))
    def add_successor(self, a, x): return self.link('Succ', a, x)
    def add_predecessor(self, a, x): return self.link('Pred', a, x)
    def add_neighbor(self, a, x): return dict(op='Neigh', r=of(x), et=enum(a['element_type']), id=word(a['element_id']), dir=enum(a['direction']))
    def add(self, op, v, x): return dict(op=op, r=of(x), xs=[of(y) for y in (v if isinstance(v, list) else [v])], mode='list' if isinstance(v, list) else 'one')
    def add_signal(self, a, x): return self.add('AddSig', a['signal'], x)
    def add_object(self, a, x): return self.add('AddObj', a['road_object'], x)
    def add_object_roadside(self, a, x):
        return dict(op='Side', r=of(x), o=of(a['road_object_prototype']), dist=num(a['repeatDistance']), so=num(a.get('sOffset')), to=num(a.get('tOffset')), side=enum(a.get('side')))
    def repeat(self, a, x):
        return dict(op='Rep', o=of(x), len=num(a['repeatLength']), dist=num(a['repeatDistance']),
                    a=dict(('s' if k == 'sStart' else k, num(v)) for k, v in a.items() if k not in ('repeatLength', 'repeatDistance') and v is not None))
    def add_connection(self, a, x): return dict(op='AddConn', j=of(x), c=of(a['connection']))
    def add_lanelink(self, a, x): return dict(op='CLink', c=of(x), f=a['in_lane'], t=a['out_lane'])
    def add_road(self, a, x): return dict(op='AddRoad', n=of(x), r=of(a['road']))
    def add_junction(self, a, x): return dict(op='AddJunc', n=of(x), j=of(a['junction']))
    def adjust_roads_and_lanes(self, a, x): return dict(op='Adjust', n=of(x))
    def adjust_startpoints(self, a, x): return dict(op='Place', n=of(x))
    def create_lane_links(self, a, x): return dict(op='Match', a=of(a['road1']), b=of(a['road2']))
    def write_xml(self, a, x):
        p = a.get('prettyprint')
        return dict(op='Write', n=of(x), file=word(a.get('filename')), pretty='~' if p is None else 'yes' if p else 'no', prior='~', times=1)
    def run_road(self, a, x): return dict(op='Write', n=of(a['opendrive']), file='~', pretty='yes', prior='~', times=1, run=True)
    def get_element(self, a, x):
        k = {'OpenDrive': 'Export n', 'Road': 'REl r', 'Junction': 'JEl j', 'Signal': 'OEl o', 'Object': 'OEl o', 'PlanView': 'PEl p'}.get(type(x).__name__)
        if k is None:
            return None
        k = k.split()
        return dict([('op', k[0]), (k[1], of(x))])
    def get_end_point(self, a, x): return dict(op='REnd', r=of(x))
    def create_road(self, a, x):
        g = a['geometry']
        gs = g if isinstance(g, list) else [g]
        h = 'x%d' % (count[0] + 1)
        c = dict(op='GenRoad', h=h, id=word(a['id']), gs=[of(y) for y in gs], single=not isinstance(g, list), left=a.get('left_lanes', -1), right=a.get('right_lanes', -1),
                 type=word(a.get('road_type')), cm=of(a['center_road_mark']) if 'center_road_mark' in a else '~', w=num(a.get('lane_width')))
        parts(h, x)
        return c
    def create_straight_road(self, a, x):
        h = 'x%d' % (count[0] + 1)
        parts(h, x)
        return dict(op='GenStraight', h=h, id=word(a['road_id']), len=num(a.get('length')), type=word(a.get('junction')), n=a.get('n_lanes', -1), w=num(a.get('lane_offset')))
    def create_cloth_arc_cloth(self, a, x):
        h = 'x%d' % (count[0] + 1)
        parts(h, x)
        return dict(op='GenCloth', h=h, id=word(a['r_id']), r=rad(a['arc_curv']), arc=tick(a['arc_angle'], 1e8), cloth=tick(a['cloth_angle'], 1e8),
                    type=word(a.get('junction')), n=a.get('n_lanes', -1), w=num(a.get('lane_offset')), k0=rad(a['cloth_start']) if 'cloth_start' in a else '~')
    def create_junction_roads(self, a, x):
        import math
        h = 'x%d' % (count[0] + 1)
        c = dict(op='GenJR', h=h, roads=[of(r) for r in a['roads']], angs=[int(round(math.degrees(y))) for y in a['angles']], rad=tick(a['r']), jid=word(a.get('junction')),
                 sp=tick(a['spiral_part'], 1e8) if 'spiral_part' in a else -1, ap=tick(a['arc_part'], 1e8) if 'arc_part' in a else -1, start=a.get('startnum', -1))
        count[0] += 1
        for i, r in enumerate(x):
            parts('%s.%d' % (h, i), r)
        return c
    def create_junction(self, a, x): return dict(op='GenJ', h=handle(x), jr=[of(r) for r in a['junction_roads']], id=word(a['id']), roads=[of(r) for r in a['roads']])


tap = Tap()


def wrap(f, name, api=None, init=False, method=True):
    sig = inspect.signature(f)

    @functools.wraps(f)
    def g(*args, **kw):
        if depth[0]:
            return f(*args, **kw)
        depth[0] += 1
        try:
            b = sig.bind(*args, **kw).arguments
            a = dict(b)
            a.update(a.pop('kw', {}))
            me = a.pop('self', None) if method else None
            err, out = None, None
            # lists are read before the library sees them
            fixed = dict((k, list(v) if isinstance(v, list) else v) for k, v in a.items())
            try:
                out = f(*args, **kw)
            except Exception as e:
                err = e
            if not method and err is not None:
                raise err
            c = getattr(tap, name)(fixed, me if method else out)
            if c:
                calls.append(c)
            if err is not None:
                raise err
            return out
        finally:
            depth[0] -= 1
    return g


def install():
    p = pyodrx
    for n in 'Line Arc Spiral ParamPoly3 PlanView RoadMark Lane LaneSection Lanes LaneLinker Road OpenDrive Junction Connection Signal Object'.split():
        c = getattr(p, n)
        c.__init__ = wrap(c.__init__, n)
    for c, ms in ((p.PlanView, 'add_geometry set_start_point adjust_geometries get_element'), (p.Line, 'get_end_data'), (p.Arc, 'get_end_data'), (p.Spiral, 'get_end_data'),
                  (p.ParamPoly3, 'get_end_data'), (p.LaneSection, 'add_left_lane add_right_lane'), (p.Lanes, 'add_lanesection'),
                  (p.Road, 'add_successor add_predecessor add_neighbor add_signal add_object add_object_roadside get_element'),
                  (p.Object, 'repeat get_element'), (p.Signal, 'get_element'), (p.Junction, 'add_connection get_element'), (p.Connection, 'add_lanelink'),
                  (p.Lane, 'add_roadmark'), (p.OpenDrive, 'add_road add_junction adjust_roads_and_lanes adjust_startpoints write_xml get_element')):
        for m in ms.split():
            setattr(c, m, wrap(getattr(c, m), m))
    p.Lane.add_link = wrap(p.Lane.add_link, 'lane_link')
    p.LaneLinker.add_link = wrap(p.LaneLinker.add_link, 'pair')
    for n in 'create_road create_straight_road create_cloth_arc_cloth create_junction_roads create_junction standard_lane create_lane_links run_road'.split():
        m = p.generators if hasattr(p.generators, n) else p
        f = getattr(m, n)
        w = wrap(f if n != 'run_road' else (lambda opendrive, esminipath='esmini', density=15: None), n, method=False)
        for mod in (p, p.generators):
            if getattr(mod, n, None) is f:
                setattr(mod, n, w)


def record(pid, run):
    """in a child: the calls of run(), up to the first that cannot be written down"""
    r, w = os.pipe()
    pid_ = os.fork()
    if pid_ == 0:
        why = ''
        try:
            d = tempfile.mkdtemp()
            os.chdir(d)
            install()
            with contextlib.redirect_stdout(io.StringIO()):
                try:
                    run()
                except BaseException as e:
                    why = '%s: %s' % (type(e).__name__, e)
                    if not isinstance(e, (Unknown, AssertionError)):
                        why += ' ' + traceback.format_exc()[-300:]
            import shutil
            os.chdir('/')
            shutil.rmtree(d)
        finally:
            with os.fdopen(w, 'w') as f:
                json.dump([calls, why], f)
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        cs, why = json.load(f)
    os.waitpid(pid_, 0)
    if why:
        sys.stderr.write('%s: %d calls, then %s\n' % (pid, len(cs), why))
    return dict(id=pid, calls=cs)


def main():
    import pytest
    with open(sys.argv[1], 'w') as out:
        for path in sys.argv[2:]:
            base = os.path.basename(path)[:-3]
            todo = []
            if base.startswith('test_'):
                ns = {'__name__': base, '__file__': path}
                exec(compile(open(path).read(), path, 'exec'), ns)
                for n, f in list(ns.items()):
                    if n.startswith('test_') and isinstance(f, types.FunctionType):
                        marks = [m for m in getattr(f, 'pytestmark', []) if m.name == 'parametrize']
                        if not marks:
                            todo.append(('use-%s-%s' % (base, n), f))
                        elif len(marks) == 1:
                            ks = [k.strip() for k in marks[0].args[0].split(',')] if isinstance(marks[0].args[0], str) else list(marks[0].args[0])
                            for i, v in enumerate(marks[0].args[1]):
                                todo.append(('use-%s-%s-%d' % (base, n, i), functools.partial(f, **(dict(zip(ks, v)) if len(ks) > 1 else {ks[0]: v}))))
                        else:
                            sys.stderr.write('%s: several parametrizations\n' % n)
            else:
                try:
                    code = compile(open(path).read(), path, 'exec')
                except SyntaxError as e:
                    sys.stderr.write('%s: %r\n' % (path, e))
                    continue
                todo.append(('use-' + base, lambda: exec(code, {'__name__': '__main__', '__file__': path})))
            for pid, run in todo:
                p = record(pid, run)
                if p['calls']:
                    out.write(json.dumps(p) + '\n')


main()
