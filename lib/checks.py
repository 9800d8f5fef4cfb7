"""One function per property. Each drives the real code through scenarios and lets TLC judge the recorded
traces against the specification, and checks the design model behind the property."""
import core, json, os, tlc
from core import Check, rng, scale, driver
from worlds import *
import geo


def focus(*cs):
    return {'Focus': '{' + ', '.join('"%s"' % c for c in cs) + '}'}


def polys_mu(d, name, polys):
    d('polys', name, len(polys), ' '.join('%d %s' % (len(P), ' '.join('%d %d' % tuple(c) for c in P)) for P in polys))


# ---------------------------------------------------------------- known findings
def more_than_a_turn(d):
    polys_mu(d, 'p', [[(179650000, 300000), (179750000, 300000), (179700000, 500000)],
                      [(-179500001, 2000000), (-179400001, 2000000), (-179400001, 2600000), (-179450001, 2100000)],
                      [(-10000, 850000), (10000, 850000), (0, 1150000)]])
    d('gen', 'g', 'p')
    d('comp', 'c', 'g')
    return d('path', 'c', 179500000, 0, -179500001, 2000000, 'inf', 0, 1)['path'] == [[179500000, 0], [-179500001, 2000000]]


def edge_of_more_than_a_turn(d):
    polys_mu(d, 'p', [[(179650000, 300000), (179750000, 300000), (179700000, 500000)],
                      [(-179500001, 2000000), (-179400001, 2000000), (-179400001, 2600000), (-179450001, 2100000)],
                      [(-10000, 850000), (10000, 850000), (0, 1150000)],
                      [(179500000, 0), (179490000, -20000), (179500000, -20000)]])
    d('gen', 'g', 'p')
    return d('edge', 'g', 179500000, 0, -179500001, 2000000)['v'] == 2


def longer_direct_line(d):
    polys_mu(d, 'p', [
        [(-179975816, 7820712), (-179966747, 7820712), (-179972793, 7826758), (-179975816, 7826758), (-179984885, 7823735),
         (-179981862, 7823735)],
        [(179981863, 7829781), (179972794, 7832804), (179975817, 7829781), (179981863, 7820712), (179990932, 7823735),
         (179990932, 7829781)],
        [(179987909, 7866057), (179984886, 7869080), (179987909, 7869080), (179987909, 7872103), (179984886, 7872103),
         (179978840, 7869080), (179984886, 7866057)],
        [(-179978839, 7841873), (-179984885, 7844896), (-179978839, 7826758)]])
    d('gen', 'g', 'p')
    d('comp', 'c', 'g')
    return len(d('path', 'c', -179978839, 7841873, 179957679, 7878149, 'inf', 0, 1)['path']) == 3


def truncated_degrees(b):
    scratch = tempfile.mkdtemp(prefix='capi.')
    try:
        facade.write_shp(os.path.join(scratch, 'none'), [])
        b.py.call('generate', shp=os.path.join(scratch, 'none.shp'), out=os.path.join(scratch, 'g'))
        b.py.call('interpolator', id='g', graph=os.path.join(scratch, 'g'))
        return abs(b.py.call('interpolate', id='g', s=[57 * 1e-6, 1.0], d=[2.0, 1.0])['path'][0][0] - 56e-6) < 1e-9
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ---------------------------------------------------------------- worlds of many islands
def isles_scene(what, d, r, kind, npoly):
    """A sample of the graph, of views or of paths in a world of hundreds of corners"""
    sc = Scene.__new__(Scene)
    sc.d, sc.r, sc.kind, sc.wide = d, r, kind, 0
    E = r.choice([20, 30, 60])
    if kind == 'wide':
        sc.fr, sc.ws = make_world(r, 'wide', npoly=npoly, kmax=9, size=r.choice([40, 150, 300]))
        a, b = lat_range(sc.fr)
        sc.box = (sc.fr.lo, sc.fr.lo + sc.fr.W - 1, a, b)
    else:
        sc.fr, sc.ws = make_world(r, kind, npoly=npoly, kmax=r.choice([4, 9]), size=max(2, E // 5), extent=E)
        c = getattr(sc.fr, 'cut', 0)
        sc.box = (c - E - 2, c + E + 2, -E - 2, E + 2)
    fr, verts = sc.fr, [p for P in sc.ws for p in P]
    sc.verts = verts
    if not sc.ws:
        return None
    sc.setup(gen=False)
    ev = [world_event(fr, sc.ws)]

    def observer():
        k = r.random()
        v = r.choice(verts)
        o = v if k < .5 else (v[0] + r.randint(-3, 3), v[1] + r.randint(-3, 3)) if k < .8 else (
            r.randint(sc.box[0], sc.box[1]), r.randint(sc.box[2], sc.box[3]))
        o = fr.norm(o)
        return o if abs(fr.mu(o)[1]) <= 89000000 and abs(fr.mu(o)[0]) <= 180000000 else v

    def nearest(o, n):
        return sorted(verts, key=lambda v: (v[0] - o[0]) ** 2 + (v[1] - o[1]) ** 2)[:n]
    if what == 'view':
        for _ in range(6):
            o, half = observer(), int(r.random() < .5)
            fr.off = False
            a = d('visible', 'p', 1, half, fr.txt(o))
            seen = [fr.unit(v[:2]) + [v[2]] for v in a['vis']]
            direct, across = ({tuple(v[:2]) for v in seen if v[2] == f} for f in (0, 1))
            some = set(r.sample(sorted(direct), min(len(direct), 25)) + r.sample(sorted(across), min(len(across), 15)) +
                       nearest(o, 15) + r.sample(verts, min(len(verts), 25))) - {o}
            ev.append({'e': 'view', 'o': list(o), 'half': half, 'off': int(fr.off), 'strange': int(not direct | across <= set(verts)),
                       'vs': [[list(v), int(v in direct), int(v in across)] for v in sorted(some)]})
        return ev
    d('gen', 'g', 'p')
    if what == 'graph':
        a = graph_event(fr, d('state', 'g'))
        vs, m, pairs = a['verts'], a['m'], set()
        n = len(vs)
        joined = {x: [(i, j) for i in range(n) for j in range(n) if m[i][j] == x] for x in (1, 2)}
        for x, k in ((1, 60), (2, 40)):
            pairs |= set(r.sample(joined[x], min(k, len(joined[x]))))
        at = {tuple(v): i for i, v in enumerate(vs)}
        for _ in range(12):
            i = r.randrange(n)
            pairs |= {(i, at[v]) for v in nearest(vs[i], 10) if v in at}
            pairs |= {(i, r.randrange(n)) for _ in range(4)}
        ev.append({'e': 'graph', 'n': n, 'off': a['off'], 'pairs': [
            [vs[i], vs[j], m[i][j] if m[i][j] == m[j][i] else 9] for i, j in sorted(pairs) if i != j]})
        return ev
    d('comp', 'c', 'g')
    hubs = sorted({p for p in (sc.point() for _ in range(r.randint(4, 7))) if p and not sc.on_land(p)})
    asked = [(a, b) for a in hubs for b in hubs if a != b]
    r.shuffle(asked)
    for a, b in asked:
        e = sc.ask(a, b, -1, r.choice([(1, 1), (1, 1), (0, 1), (1, 2)]))
        ev.append({k: e[k] for k in ('e', 's', 'd', 'r')})
        if e['r']['ok'] and len(e['r']['path']) > 3 and r.random() < .3:  # and a part of the way
            p = [tuple(x) for x in e['r']['path']]
            i = r.randrange(1, len(p) - 1)
            if p[i] in verts:
                for x, y in ((p[0], p[i]), (p[i], p[-1])):
                    f = sc.ask(x, y)
                    ev.append({k: f[k] for k in ('e', 's', 'd', 'r')})
    return ev


def isles(c, what, complaints, n=None):
    kinds = ('local', 'cut') if what == 'path' else ('local', 'cut', 'wide')
    sizes = scale([25, 45, 80], [25, 45, 80, 120])
    m = [scenario(c.prop, 'isles%d' % i, lambda d, r, i=i: isles_scene(what, d, r, kinds[i % len(kinds)], sizes[i % len(sizes)]))
         for i in range(n or scale(36, 600))]
    c.campaign('Isles', m, driver(), focus(*complaints))


def wide_scene(d, r, what):
    """The graph or views of a world of lands across the map that have details of a microdegree"""
    ws = shapes.wide_world(r)
    if not ws:
        return None
    fr = Frame(1)
    polys_cmd(d, fr, ws, rng=r)
    verts = [p for P in ws for p in P]
    ev = [world_event(fr, ws)]
    if what == 'graph':
        d('gen', 'g', 'p')
        a = graph_event(fr, d('state', 'g'))
        vs, m = a['verts'], a['m']
        ev.append({'e': 'graph', 'n': len(vs), 'off': a['off'], 'pairs': [
            [vs[i], vs[j], m[i][j] if m[i][j] == m[j][i] else 9] for i in range(len(vs)) for j in range(i)]})
        return ev
    for o in r.sample(verts, min(len(verts), 6)):
        half = int(r.random() < .3)
        a = d('visible', 'p', 1, half, fr.txt(o))
        direct, across = ({tuple(v[:2]) for v in a['vis'] if v[2] == f} for f in (0, 1))
        ev.append({'e': 'view', 'o': list(o), 'half': half, 'off': 0, 'strange': int(not direct | across <= set(verts)),
                   'vs': [[list(v), int(v in direct), int(v in across)] for v in verts if v != o]})
    return ev


def wide_lands(c, what, complaints, n=None):
    m = [scenario(c.prop, 'lands%d' % i, lambda d, r: wide_scene(d, r, what)) for i in range(n or scale(150, 6000))]
    c.campaign('Wide', m, driver(), dict(focus(*complaints), Cross='<- SideOf', Area2='<- TurnOf'))


# ---------------------------------------------------------------- visibility graphs
def gen_scenario(prop, kind, i, **kw):
    def fn(d):
        r = rng(prop, kind, i)
        fr, ws = make_world(r, kind, **kw)
        if not ws:
            return None
        polys_cmd(d, fr, ws, rng=r)
        d('threads', r.choice([1, 2, 4, 8]))
        if r.random() < .7:
            d('gen', 'g', 'p')
        else:
            n = sum(len(P) for P in ws)
            d('genrange', 'g', 'p', 0, n, r.randint(0, 1000))
        return [world_event(fr, ws), graph_event(fr, d('state', 'g'))]
    return fn


def visgraph_makers(prop, q, t):
    n = scale(q, t)
    m = []
    for kind, share in (('local', 4), ('wide', 3), ('cut', 3), ('micro', 5)):
        m += [((kind, i), gen_scenario(prop, kind, i)) for i in range(n * share // 12)]
    m += [(('big', i), gen_scenario(prop, k, 'big%d' % i, npoly=10, kmax=12)) for i, k in
          enumerate(['local', 'wide', 'cut'] * scale(2, 20))]
    return m


def C01():
    c = Check('C01')
    c.known(driver(), {'more-than-a-turn': edge_of_more_than_a_turn})
    c.campaign('CapiTrace', visgraph_makers('C01', 240, 6000), driver(), focus('cuts land'))
    isles(c, 'graph', ['cuts land'])
    wide_lands(c, 'graph', ['cuts land'])
    small_worlds(c, ('generated', tours.play_generated))
    c.finish()


def small_worlds(c, *plays, **kw):
    tours.sweep(c, plays, scale([('four', 4, 3), ('two', 3, 3)], [('three', 5, 4), ('four', 4, 4), ('two', 4, 3)]), **kw)


def C02():
    c = Check('C02')
    c.campaign('CapiTrace', visgraph_makers('C02', 240, 6000), driver(), focus('not joined', 'wrong flag', 'asymmetric', 'vertices'))
    isles(c, 'graph', ['not joined', 'wrong flag', 'asymmetric', 'vertices'])
    wide_lands(c, 'graph', ['not joined', 'wrong flag', 'asymmetric', 'vertices'])
    small_worlds(c, ('generated', tours.play_generated), mistakes=['initial'])
    c.finish()


# ---------------------------------------------------------------- routes
def queries(d, r, kind, n, radius=True, weights=True, turns=False, **kw):
    sc = Scene(d, r, kind, **kw)
    if not sc.ws:
        return None
    ev = [sc.setup()]
    for _ in range(n):
        q = sc.pair()
        if not q:
            continue
        mx = sc.radius(*q) if radius else -1
        w = sc.weight() if weights else (1, 1)
        s, t = (sc.turned(q[0]), sc.turned(q[1])) if turns else q
        ev.append(sc.ask(s, t, mx, w))
    return ev


def scenario(prop, i, body):
    def fn(d):
        return body(d, rng(prop, i))
    return ('%s/%s' % (prop, i), fn)


ROUTE_KINDS = ('local', 'cut', 'local', 'wide')


def route_makers(prop, n, per=12, **kw):
    m = [scenario(prop, '%s%d' % (k, i), lambda d, r, k=k: queries(d, r, k, per, **kw))
         for i in range(n) for k in (ROUTE_KINDS[i % 4],)]
    m += [scenario(prop, 'big%s%d' % (k, i), lambda d, r, k=k: queries(d, r, k, per, npoly=9, kmax=9, **kw))
          for i in range(max(2, n // 20)) for k in (ROUTE_KINDS[i % 2],)]
    # many islets: points with many neighbours
    m += [scenario(prop, 'islets%s%d' % (k, i), lambda d, r, k=k: queries(d, r, k, per, npoly=26, kmax=3, size=2, **kw))
          for i in range(max(2, n // 40)) for k in (ROUTE_KINDS[i % 2],)]
    m += [scenario(prop, 'tiny%d' % i, lambda d, r: queries(d, r, 'tiny', per, **kw)) for i in range(n // 4)]
    return m


def C03():
    c = Check('C03')
    c.known(driver(), {'more-than-a-turn': more_than_a_turn})
    c.campaign('CapiTrace', route_makers('C03', scale(160, 4000)), driver(), focus('cuts land', 'ends', 'strange point'))
    isles(c, 'path', ['cuts land', 'ends', 'strange point'])
    tours.query_tour(c, ('land',), scale([('four', 3, 3)], [('three', 3, 3), ('four', 3, 3), ('two', 3, 3), ('four', 4, 3)]),
                     ['proper', 'through'], scale(8, None))
    c.finish()


def C04():
    c = Check('C04')
    c.known(driver(), {'longer-direct-line': longer_direct_line})
    c.campaign('CapiTrace', route_makers('C04', scale(160, 4000), radius=False), driver(), focus('too long', 'detour'))
    isles(c, 'path', ['too long'])
    tours.routes(c, 'length', ['early', 'closed', 'direct', 'charge', 'order'])
    tours.query_tour(c, ('length',), scale([('four', 3, 3)], [('three', 3, 3), ('four', 3, 3), ('two', 3, 3), ('four', 4, 3)]),
                     ['nearest', 'far'], scale(8, None))
    c.finish()


def C05():
    c = Check('C05')
    c.campaign('CapiTrace', route_makers('C05', scale(160, 4000)), driver(), focus('no route', 'outside radius', 'ends'))
    isles(c, 'path', ['no route', 'ends'])
    tours.routes(c, 'radius', ['beyond'])
    tours.query_tour(c, ('route',), scale([('three', 3, 3)], [('three', 4, 3), ('four', 3, 3), ('two', 3, 3)]), ['nearest'], scale(6, None))
    c.model('AStar ends', 'AStar', tlc.cfg_text(spec='Spec', properties=['Ends'], constants={
        'W': 8, 'Layouts': '<- Few', 'Weights': '<- WeightsFew', 'Radii': '<- RadiiOne', 'Variant': '"ok"', 'Tell': 'FALSE'}))
    c.finish()


def batch_scene(d, r, kind):
    sc = Scene(d, r, kind)
    if not sc.ws:
        return None
    ev = [sc.setup()]
    for _ in range(2):
        qs = [q for q in (sc.pair() for _ in range(r.randint(0, 14))) if q]
        if qs and r.random() < .5:
            qs += [r.choice(qs) for _ in range(3)]
        if qs and r.random() < .5:  # queries that share a point, some of them failing, next to each other
            x = sc.point(land=True) if kind == 'local' else None
            hub = r.choice(qs)[0]
            more = [(hub, q[1]) for q in r.sample(qs, min(len(qs), 4))] + ([(hub, x), (x, hub)] if x else [])
            r.shuffle(more)
            k = r.randint(0, len(qs))
            qs[k:k] = [(b, a) for a, b in more] if r.random() < .3 else more
        mx = sc.radius(*qs[0]) if qs else -1
        w = sc.weight()
        corr = 0
        asked = list(qs)
        r.shuffle(asked)
        for q in asked:
            ev.append(sc.ask(*q, mx, w, corr))
        d('threads', r.choice([1, 2, 3, 4, 8, 16]))
        for _ in range(2):
            ev.append(sc.batch(qs, mx, w, corr))
    return ev


def large_batches(d, r, kind):
    """Some hundreds of queries at once, asked one by one before"""
    sc = Scene(d, r, kind, npoly=r.randint(4, 14), kmax=5)
    if not sc.ws:
        return None
    ev = [sc.setup()]
    qs = [q for q in (sc.pair() for _ in range(r.choice([20, 60]))) if q]
    for _ in range(r.randint(1, 6) if kind == 'local' else 0):
        x = sc.point(land=True)
        if x:
            qs.append((x, r.choice(qs)[1]))
    w, mx = sc.weight(), sc.radius(*qs[0])
    for q in qs:
        ev.append(sc.ask(*q, mx, w))
    n = r.choice([65, 130, 260, 400])
    for t in r.sample([1, 2, 3, 5, 8, 16], 2):
        d('threads', t)
        asked = (qs * (n // len(qs) + 1))[:n] if r.random() < .3 else [r.choice(qs) for _ in range(n)]
        ev.append(sc.batch(asked, mx, w))
    return ev


def C06():
    c = Check('C06')
    m = [scenario('C06', 'large%d' % i, lambda d, r, i=i: large_batches(d, r, ('local', 'cut')[i % 2])) for i in range(scale(10, 200))]
    c.campaign('Recall', m, driver(), focus('changed answer', 'batch size'))
    m = [scenario('C06', '%s%d' % (k, i), lambda d, r, k=k: batch_scene(d, r, k))
         for i in range(scale(60, 2000)) for k in (ROUTE_KINDS[i % 4],)]
    c.campaign('CapiTrace', m, driver(), focus('batch size', 'batch error flag', 'batch differs'))
    tours.batch_tour(c)
    tours.history_tour(c, 'long')
    c.finish()


def correction_scene(d, r, n=10):
    sc = Scene(d, r, 'near')
    if not sc.ws:
        return None
    ev = [sc.setup()]
    for _ in range(n):
        s, t = sc.point(land=r.random() < .5), sc.point(land=r.random() < .5)
        if s is None or t is None:
            continue
        if r.random() < .25 and sc.on_land(s):
            P = [P for P in sc.ws if geo.inside(s, P)][0]
            for _ in range(20):
                x = (r.randint(min(v[0] for v in P), max(v[0] for v in P)), r.randint(min(v[1] for v in P), max(v[1] for v in P)))
                if geo.inside(x, P) and not sc.ambiguous(x):
                    t = x
                    break
        if r.random() < .08:
            t = s
        corr = 0 if r.random() < .25 else 1
        ev.append(sc.ask(s, t, -1, r.choice([(1, 1), (1, 1), (2, 1)]), corr))
        if r.random() < .2:
            ev.append(sc.batch([(s, t), (t, s)], -1, (1, 1), corr))
    return ev


def C15():
    c = Check('C15')
    m = [scenario('C15', i, lambda d, r: correction_scene(d, r)) for i in range(scale(150, 4000))]
    cs = ['answers on land', 'no route', 'ends', 'cuts land'] + ['correction: ' + x for x in (
        'no route', 'ends', 'strange point', 'cuts land')]
    c.campaign('CapiTrace', m, driver(), focus(*(cs + ['batch: ' + x for x in cs])))
    tours.query_tour(c, ('land', 'route'), scale([('three', 3, 3)], [('three', 4, 3), ('four', 3, 3), ('two', 3, 3)]), ['land'], scale(8, None))
    tours.shore_tour(c)
    c.finish()


# ---------------------------------------------------------------- the graph store
from store import *
import shutil, tempfile
import tours
from build import build
STORE_ALL = ('error wrong', 'edges', 'neighbours', 'vertices', 'vertex order', 'polygons', 'equality wrong', 'text wrong')


def stored(prop, i, body):
    def fn(d):
        r = rng(prop, i)
        d('reset')
        scratch = tempfile.mkdtemp(prefix='capi.')
        try:
            st = Store(d, r, scratch)
            body(st)
            return st.ev
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return ('%s/%s' % (prop, i), fn)


def graph_history(st, g, vs, unknown, n, overlay=False):
    r = st.r
    hot = r.sample(vs, min(len(vs), r.choice([2, 3, 3, 5]))) if vs else []
    for _ in range(n):
        k = r.random()
        pick = lambda: r.choice(hot if hot and r.random() < .8 else (vs or unknown))
        if not vs and not unknown:
            return
        if overlay and not vs:
            st.addvert(g, unknown[0])
            vs.append(unknown[0])
            hot.append(unknown.pop(0))
        a, b = pick(), pick()
        if k < .45:
            if unknown and r.random() < .1:
                if overlay:
                    a = r.choice(unknown)
                    if r.random() < .5:
                        a, b = b, a
                    if a == b:
                        continue
                    st.op('add', g, a, b, r.choice([1, 2]))
                    x = [v for v in (a, b) if v in unknown]
                    for v in set(x):
                        unknown.remove(v)
                        vs.append(v)
                        hot.append(v)
                    continue
                a = r.choice(unknown)
                if r.random() < .5:
                    a, b = b, a
            st.op(r.choice(['add', 'adddir', 'adddir']), g, a, b, r.choice([1, 2, 2]))
        elif k < .65:
            if unknown and r.random() < .1 and not overlay:
                b = r.choice(unknown)
            st.op(r.choice(['rem', 'remdir', 'remdir']), g, a, b)
        elif k < .8:
            if unknown and r.random() < .1 and not overlay:
                b = r.choice(unknown)
            st.edge(g, a, b)
        elif k < .88:
            st.nbrs(g, r.choice(unknown) if unknown and not overlay and r.random() < .1 else a)
        elif k < .92:
            st.hasvert(g, r.choice(unknown) if unknown and r.random() < .5 else a)
        elif k < .94 and (unknown or vs):
            v = r.choice(unknown) if unknown and r.random() < .8 else a
            st.addvert(g, v)
            if v in unknown:
                unknown.remove(v)
                vs.append(v)
                hot.append(v)
        elif k < .96 and not overlay:
            st.state(g)
    st.state(g, 0 if overlay else 1)


def history_scene(st, n=0):
    r = st.r
    vs, left, _ = some_graph(st, 'g', n or r.choice([0, 3, 4, 6, 9, 20]))
    graph_history(st, 'g', vs, left + [st.num(c) for c in pool(r, 3)[:2] if st.known(c) not in vs], r.randint(5, 60))


def C10():
    c = Check('C10')
    m = [stored('C10', i, history_scene) for i in range(scale(400, 20000))]
    m += [stored('C10', 'large%d' % i, lambda st, n=n: history_scene(st, n)) for i in range(scale(3, 20)) for n in (70, 140, 300)]
    c.campaign('StoreTrace', m, driver(), focus(*STORE_ALL))
    graph_tour(c)
    c.finish()


def graph_tour(c):
    bs = tours.tour(c, 'GraphModel', 'GraphModel',
                    {'Verts0': '<- Triangle', 'New': '{4}', 'Strange': '{9}',
                     'Pairs': scale('<- PairsSmall', '<- PairsLarge')},
                    mistakes={'stride': 'Refines', 'overwrite': 'Refines'})
    tours.replay(c, 'GraphModel', build('driver'), tours.play_graph, bs)


def overlay_tour(c):
    bs = tours.tour(c, 'OverlayModel', 'OverlayModel',
                    {'Base': '<- Triangle', 'New': '{4}', 'Pairs': scale('<- PairsSmall', '<- PairsLarge'),
                     'BasePairs': scale('<- BaseSmall', '<- BaseLarge')},
                    mistakes={'flag': 'Refines', 'revive': 'Refines', 'erase': 'Refines'})
    tours.replay(c, 'OverlayModel', build('driver'), tours.play_overlay, bs)


def overlay_scene(st, n=0):
    r = st.r
    vs, left, _ = some_graph(st, 'g', n or r.choice([0, 3, 5, 6, 9]))
    random_edges(st, 'g', vs, r.randint(0, 12 + n), symmetric=False)
    live = []
    for k in range(r.randint(1, 3)):
        name = 'o%d' % k
        base = 'g' if not live or r.random() < .7 else live[0][0]
        if base == 'g':
            st.overlay(name, 'g')
            live.append((name, list(vs), list(left)))
        else:  # an overlay of an overlay that is no longer changed
            n0, v0, l0 = live.pop(0)
            st.overlay(name, n0)
            live.append((name, list(v0), list(l0)))
            st.frozen = n0
    for _ in range(r.randint(1, 4)):
        name, v, u = r.choice(live)
        graph_history(st, name, v, u, r.randint(1, 25), overlay=True)
    st.state('g', 1)
    for name, _, _ in live:
        st.state(name)
    if hasattr(st, 'frozen'):
        st.state(st.frozen)


def C11():
    c = Check('C11')
    m = [stored('C11', i, overlay_scene) for i in range(scale(400, 20000))]
    m += [stored('C11', 'large%d' % i, lambda st, n=n: overlay_scene(st, n)) for i in range(scale(2, 20)) for n in (70, 140, 280)]
    c.campaign('StoreTrace', m, driver(), focus(*STORE_ALL))
    overlay_tour(c)
    c.finish()


def equality_scene(st, n=0):
    """Graphs over the same coordinates: made in different orders, then told apart by one operation"""
    r = st.r
    ps, left = rings(r, pool(r, n or r.choice([3, 4, 6, 8, 12])))
    names = []
    n = r.randint(2, 4)
    script = []
    polys = st.polys('p', ps)
    vs = [v for p in polys for v in p]
    if len(vs) > 1:
        for _ in range(r.randint(0, 14)):
            a, b = r.sample(vs, 2)
            script.append((r.choice(['add', 'add', 'adddir']), a, b, r.choice([1, 2])))
    for k in range(n):
        name = 'g%d' % k
        q = list(ps)
        r.shuffle(q)
        q = [p[j:] + p[:j] for p in q for j in (r.randrange(len(p)),)]
        if r.random() < .1 and q:
            q = q[:-1]
        moved = {}
        if q and r.random() < .25:  # one vertex a microdegree away, or mirrored
            i = r.randrange(len(q))
            j = r.randrange(len(q[i]))
            x, y = c = q[i][j]
            c2 = r.choice([(x + 1, y), (x - 1, y), (x, y + 1), (x, y - 1), (-x, y), (x, -y)])
            P = q[i][:j] + [c2] + q[i][j + 1:]
            if abs(c2[0]) <= 180000000 and abs(c2[1]) <= 90000000 and not st.known(c2) and geo.simple(P):
                q[i] = P
                moved[st.num(c)] = st.num(c2)
        st.new(name, 'p' + name, st.polys('p' + name, q))
        have = set(v for p in st.ev[-1]['polys'] for v in p)
        ops = [(o, moved.get(a, a), moved.get(b, b), x) for o, a, b, x in script]
        r.shuffle(ops)
        if ops and r.random() < .4:
            i = r.randrange(len(ops))
            ops[i] = r.choice([(ops[i][0], ops[i][1], ops[i][2], 3 - ops[i][3]), (ops[i][0], ops[i][2], ops[i][1], ops[i][3])])
        elif ops and r.random() < .2:
            ops.pop()
        for o, a, b, x in ops:
            if a in have and b in have:
                if r.random() < .2:
                    st.op(o, name, a, b, 3 - x)
                    st.op('rem' if o == 'add' else 'remdir', name, a, b)
                st.op(o, name, a, b, x)
        if r.random() < .3 and left:
            st.addvert(name, st.num(r.choice(left)))
        names.append(name)
    for a in names:
        for b in names:
            st.eq(a, b)
        st.text(a)
    if len(vs) > 1:  # and one further step apart
        a, b = r.sample(vs, 2)
        have = set(v for p in polys for v in p)
        st.op(r.choice(['adddir', 'remdir']), 'g0', a, b, r.choice([1, 2])) if len(st.ev) else None
        for b in names:
            st.eq('g0', b)
            st.eq(b, 'g0')
        st.text('g0')


def C16():
    c = Check('C16')
    m = [stored('C16', i, equality_scene) for i in range(scale(300, 15000))]
    m += [stored('C16', 'large%d' % i, lambda st, n=n: equality_scene(st, n)) for i in range(scale(2, 20)) for n in (60, 130, 260)]
    c.campaign('StoreTrace', m, driver(), focus(*STORE_ALL))
    merge_tour(c, tours.play_same)
    c.finish()


def save_scene(st, sizes):
    r = st.r
    files = ['f1', 'f2']
    if r.random() < .5:
        st.scribble('f1', bytes(r.randrange(256) for _ in range(r.choice([0, 1, 7, 200, 5000]))) if r.random() < .7
                    else b'\xff' * r.choice([64, 4096, 70000]))
    n = r.choice(sizes)
    for k in range(r.randint(1, 3)):
        g = 'g%d' % k
        size = n if k == 0 else r.choice([0, 3, 5, 8, 9, 16, 17, 24])
        vs, left, polys = some_graph(st, g, size, hi=r.choice([3, 5, 5, max(5, min(size, 300))]))
        m = r.choice([0, len(vs) // 2, len(vs), 3 * len(vs), len(vs) * (len(vs) - 1) // 2 if len(vs) < 40 else len(vs)])
        random_edges(st, g, vs, m)
        if len(vs) > 2:  # the corners of the stored triangle
            for a, b in ((vs[-1], vs[0]), (vs[-1], vs[-2]), (vs[1], vs[0])):
                if r.random() < .5:
                    st.op('add', g, a, b, r.choice([1, 2, 2]))
                elif r.random() < .3:
                    st.op('rem', g, a, b)
        f = r.choice(files)
        st.save(g, f)
        st.load('l', f)
        st.state('l', 1)
        st.eq('l', g)
        if r.random() < .4:
            st.save('l', r.choice(files))
            st.load('m', st.ev[-1]['file'])
            st.state('m', 1)
        st.state(g, 1)


def dense_graph(st, g, n):
    """A graph with hundreds or thousands of edges, many across the meridian, among its first and its last vertices"""
    r = st.r
    vs, _, _ = some_graph(st, g, n, hi=r.choice([5, 40, n]))
    st.d.many(['addedge %s %s %s %d' % (g, st.txt(vs[i]), st.txt(vs[j]), r.random() < .5) for i in range(len(vs))
               for j in range(i) if (i < 60 or i >= len(vs) - 16) and r.random() < .6])
    st.take(g)


def dense_scene(st, n):
    dense_graph(st, 'g', n)
    for f in ('f1', 'f2', 'f1'):
        st.save('g', f)
        st.load('l', f)
        st.state('l', 1)
        st.eq('l', 'g')


def C07():
    c = Check('C07')
    sizes = [0, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 66]
    m = [stored('C07', i, lambda st: save_scene(st, sizes)) for i in range(scale(300, 10000))]
    m += [stored('C07', 'big%d' % i, lambda st, n=n: save_scene(st, [n])) for i, n in
          enumerate(scale([129, 257, 300, 380, 390], [129, 257, 300, 380, 520, 800] * 4))]
    m += [stored('C07', 'dense%d' % i, lambda st, n=n: dense_scene(st, n)) for i, n in
          enumerate(scale([30, 45, 375], [30, 60, 90, 375, 380, 385, 600]))]
    c.campaign('StoreTrace', m, driver(), focus(*STORE_ALL), batch=100)
    c.finish()


FILE = '{"' + '", "'.join(['error', 'not a graph file', 'polygons in file', 'edges in file']) + '"}'


def file_scene(st, sizes, dense=0):
    """Saves graphs to one file and notes its bytes"""
    r, ev = st.r, []
    for k in range(1 if dense else r.randint(1, 3)):
        g = 'g%d' % k
        if dense:
            dense_graph(st, g, dense)
        else:
            vs, _, _ = some_graph(st, g, r.choice(sizes), hi=r.choice([3, 5, 5, 40]))
            random_edges(st, g, vs, r.choice([0, len(vs) // 2, len(vs), 3 * len(vs)]))
        t = st.d('save', g, os.path.join(st.scratch, 'f'))['thrown']
        a = st.d('dump', g)
        with open(os.path.join(st.scratch, 'f'), 'rb') as f:
            b = list(f.read())
        ev.append({'e': 'file', 'thrown': t, 'polys': a['polys'], 'edges': [e for e in a['edges'] if e[1] < e[0]], 'bytes': b})
    st.ev[:] = ev


def C24():
    c = Check('C24')
    consts = {'Sizes': scale('<- SizesSmall', '<- SizesLarge'), 'MaxEdges': scale(1, 2)}
    small = {'Sizes': '<- SizesOne', 'MaxEdges': 2, 'Tell': 'FALSE'}
    bs = []
    for name, cs in (('FileModel', consts), ('FileModel, two edges', {'Sizes': '<- SizesTwo', 'MaxEdges': 2})):
        bs += tours.tour(c, name, 'FileModel', cs, mistakes={'sparse': 'Refines'} if cs is consts else None)
    c.model('FileModel, mistake: count', 'FileModel', tlc.cfg_text(invariants=['Refines'], constants=dict(small, Variant='"count"')),
            expect='Refines')
    scratch = tempfile.mkdtemp(prefix='capi.')
    try:
        files = []
        for i, b in enumerate(bs):
            for k, body in enumerate(tours.file_variants(b)):
                path = os.path.join(scratch, '%d.%d' % (i, k))
                with open(path, 'wb') as f:
                    f.write(bytes(body))
                files.append({'polys': b['polys'], 'edges': b['edges'], 'path': path})
        tours.replay(c, 'FileModel', build('driver'), tours.play_file, files)
        sizes = [0, 3, 4, 7, 8, 9, 10, 15, 16, 17, 24, 25, 33]
        m = [stored('C24', i, lambda st: file_scene(st, sizes)) for i in range(scale(150, 4000))]
        m += [stored('C24', 'dense%d' % i, lambda st, n=n: file_scene(st, [], n)) for i, n in
              enumerate(scale([45, 60, 375], [45, 60, 90, 375, 380, 600]))]
        c.campaign('FileTrace', m, driver(), {'Focus': FILE})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    c.finish()


def world_polys(st, name, fr, ws, disguised=True):
    r = st.r
    Q = [geo.disguise(r, P) for P in ws] if disguised else [list(P) for P in ws]
    if disguised:
        r.shuffle(Q)
    return st.polys(name, [[fr.mu(p) for p in P] for P in Q])


def gen_world(r, big=False):
    kind = r.choice(['local', 'wide', 'cut', 'cut'])
    fr, ws = make_world(r, kind, **({'npoly': 12, 'kmax': 10} if big is True else {'npoly': big, 'kmax': 5, 'extent': 40, 'size': None if kind == 'wide' else 6})) if big else make_world(r, kind)
    return fr, ws


def shard_scene(st, big=False):
    r, d = st.r, st.d
    fr, ws = gen_world(r, big)
    polys = world_polys(st, 'p', fr, ws)
    n = sum(len(p) for p in polys)
    d('threads', r.choice([1, 2, 4, 8]))
    d('gen', 'full', 'p')
    st.take('full')
    seed = r.choice([0, 1, 42, r.getrandbits(32)])
    cuts = sorted([0, n] + [r.randint(0, n) for _ in range(r.choice([0, 1, 2, 3, 5, n]))])
    ranges = [(a, b) for a, b in zip(cuts, cuts[1:])]
    for _ in range(r.choice([0, 0, 1, 2])):  # overlapping ones, empty ones, repeated ones
        a, b = sorted((r.randint(0, n), r.randint(0, n)))
        ranges.append((a, b))
    if r.random() < .3:
        ranges.append(r.choice(ranges))
    r.shuffle(ranges)
    names = []
    for k, (a, b) in enumerate(ranges):
        d('threads', r.choice([1, 2, 4, 8]))
        t = d('genrange', 's%d' % k, 'p', a, b, seed)['thrown']
        st.take('s%d' % k)
        names.append('s%d' % k)
    d('threads', r.choice([1, 2, 4, 8]))
    st.merge('m', names)
    st.state('m')
    st.again('full', 'm')
    r.shuffle(names)
    k = r.randint(1, len(names))
    st.merge('m1', names[:k])
    st.state('m1')
    st.merge('m2', names[k:] + names[:1] + ['m1'])
    st.state('m2')
    st.again('full', 'm2')
    st.merge('m3', ['m2', 'm2'])
    st.again('full', 'm3')


def merge_scene(st):
    """Graphs over different, partly shared polygons"""
    r = st.r
    ps, _ = rings(r, pool(r, r.choice([6, 10, 18])))
    if not ps:
        return
    names = []
    for k in range(r.randint(1, 5)):
        mine = r.sample(ps, r.randint(0, len(ps)))
        polys = st.polys('p%d' % k, mine)
        st.new('g%d' % k, 'p%d' % k, polys)
        random_edges(st, 'g%d' % k, [v for p in polys for v in p], r.randint(0, 12))
        names.append('g%d' % k)
    st.d('threads', r.choice([1, 2, 4, 8]))
    st.merge('m', names)
    st.state('m')
    st.merge('n', [r.choice(names), 'm', r.choice(names)])
    st.state('n')
    for g in names:
        st.state(g, 1)


def C08():
    c = Check('C08')
    m = [stored('C08', i, shard_scene) for i in range(scale(120, 3000))]
    m += [stored('C08', 'big%d' % i, lambda st: shard_scene(st, True)) for i in range(scale(6, 100))]
    m += [stored('C08', 'mix%d' % i, merge_scene) for i in range(scale(150, 4000))]
    c.campaign('StoreTrace', m, driver(), focus(*STORE_ALL))
    merge_tour(c, tours.play_merge)
    generation_model(c, 'gap')
    small_worlds(c, ('sharded', tours.play_sharded), mistakes=['barrier'])
    c.finish()


def merge_tour(c, play):
    bs = tours.tour(c, 'MergeModel', 'MergeModel', {'Large': scale('FALSE', 'TRUE')}, view=None,
                    mistakes={'last': 'Refines', 'first': 'Refines'})
    tours.replay(c, 'MergeModel', build('driver'), play, bs, {'OMP_NUM_THREADS': '2'})


def generation_model(c, *mistakes):
    cfg = lambda v, n, **k: tlc.cfg_text(spec='Spec', invariants=['Refines'], constants={'N': n, 'Workers': '{1, 2}', 'Variant': '"%s"' % v}, **k)
    c.model('Generation', 'Generation', cfg('ok', 3, properties=['Finishes']))
    for v in mistakes:
        c.model('Generation, mistake: ' + v, 'Generation', cfg(v, 3), expect='Refines')


def repeat_scene(st, big=False):
    r, d = st.r, st.d
    fr, ws = gen_world(r, big)
    polys = world_polys(st, 'p', fr, ws)
    n = sum(len(p) for p in polys)
    d('threads', 1)
    d('gen', 'g', 'p')
    st.take('g')
    for k in range(r.randint(2, 5)):
        d('threads', r.choice([1, 2, 3, 4, 8, 16]))
        how = r.random()
        if how < .3:
            d('gen', 'h', 'p')
        elif how < .5:
            d('genrange', 'h', 'p', 0, n, r.getrandbits(32))
        else:
            q = 'q%d' % k
            world_polys(st, q, fr, ws)
            d('gen', 'h', q)
            st.add(e='again', id='g', made='h', **dict(st.observe('h'), polys=polys))
            continue
        st.again('g', 'h')
    for _ in range(2):
        a, b = sorted((r.randint(0, n), r.randint(0, n)))
        seed = r.getrandbits(32)
        d('threads', 1)
        d('genrange', 'r', 'p', a, b, seed)
        st.take('r')
        d('threads', r.choice([2, 4, 8, 16]))
        d('genrange', 's', 'p', a, b, seed)
        st.again('r', 's')
    # asked for one after the other in any order: what a call gives does not depend on the calls before it
    seeds = [r.getrandbits(32) for _ in range(2)]
    world_polys(st, 'x', fr, ws)
    a, b = sorted((r.randint(0, n), r.randint(0, n)))
    asked = {}
    for _ in range(4 if big else 9):
        q = (r.choice('px'), r.choice([(a, b), (a, b), (0, a)]), r.choice(seeds))
        known = q in asked
        name = 's' if known else asked.setdefault(q, 'a%d' % len(asked))
        d('genrange', name, q[0], q[1][0], q[1][1], q[2])
        if known:
            st.again(asked[q], name)
        else:
            st.take(name)


def C09():
    c = Check('C09')
    m = [stored('C09', i, repeat_scene) for i in range(scale(120, 3000))]
    m += [stored('C09', 'big%d' % i, lambda st: repeat_scene(st, True)) for i in range(scale(10, 200))]
    m += [stored('C09', 'isles%d' % i, lambda st, n=n: repeat_scene(st, n)) for i in range(scale(1, 10)) for n in (30, 60)]
    c.campaign('StoreTrace', m, driver(), focus(*STORE_ALL))
    generation_model(c, 'last', 'once')
    small_worlds(c, ('disguised', tours.play_disguised), mistakes=['barrier'])
    c.finish()


# ---------------------------------------------------------------- visibility from a point
def visible_scene(d, r, kind, n=12, **kw):
    flat = kind == 'micro' or kind == 'local' and r.random() < .4
    sc = Scene.__new__(Scene)
    sc.d, sc.r, sc.kind, sc.wide = d, r, kind, 0
    sc.fr, sc.ws = make_world(r, kind, **kw)
    if not sc.ws:
        return None
    fr = sc.fr
    sc.verts = [p for P in sc.ws for p in P]
    if kind == 'wide':
        a, b = lat_range(fr)
        sc.box = (fr.lo, fr.lo + fr.W - 1, a, b)
    else:
        c = getattr(fr, 'cut', 0)
        sc.box = (c - 15, c + 15, -15, 15)
        if kind == 'micro':
            e = max(abs(x) for v in sc.verts for x in v) + 3
            sc.box = (-e, e, -e, e)
    polys_cmd(d, fr, sc.ws, rng=r)
    ev = [world_event(fr, sc.ws, W=0 if flat else None)]
    per = 0 if flat else 1
    for _ in range(n):
        k = r.random()
        if k < .35:
            o = r.choice(sc.verts)
        elif k < .6:
            v = r.choice(sc.verts)
            o = (v[0] + r.randint(-2, 2), v[1] + r.randint(-2, 2))
            if k < .45:
                o = (v[0] + r.randint(-9, 9), v[1])
        else:
            o = (r.randint(sc.box[0], sc.box[1]), r.randint(sc.box[2], sc.box[3]))
        o = o if flat else fr.norm(o)
        if abs(fr.mu(o)[1]) > 90000000 or abs(fr.mu(o)[0]) > 180000000:
            continue
        half = int(r.random() < .5)
        ev.append(visible_event(fr, d('visible', 'p', per, half, fr.txt(o)), o, half))
    return ev


VIS = ('sees through land', 'sees through land across', 'does not see', 'does not see across', 'vertices')


def C19():
    c = Check('C19')
    m = [scenario('C19', '%s%d' % (k, i), lambda d, r, k=k: visible_scene(d, r, k))
         for i in range(scale(240, 6000)) for k in (('local', 'wide', 'cut', 'micro')[i % 4],)]
    m += [scenario('C19', 'big%s%d' % (k, i), lambda d, r, k=k: visible_scene(d, r, k, npoly=10, kmax=12))
          for i in range(scale(12, 300)) for k in (('local', 'wide', 'cut')[i % 3],)]
    c.campaign('CapiTrace', m, driver(), focus(*VIS))
    isles(c, 'view', VIS)
    wide_lands(c, 'view', VIS)
    small_worlds(c, ('visible', tours.play_visible), ('generated', tours.play_generated))
    c.finish()


def norm_event(d, p):
    a = d('normalize', *p)
    return {'e': 'norm', 'p': list(p), 'c': a['c'], 'over': a['over'], 'per': a['per']}


def periodic_scene(d, r, kind):
    """The same questions with and without whole turns, after normalising random longitudes"""
    sc = Scene(d, r, kind)
    if not sc.ws:
        return None
    ev = [sc.setup()]
    for _ in range(12):
        base = r.choice([0, 180000000, -180000000, 180000001, -180000001, r.randint(-180000000, 180000000)])
        p = base + r.randint(-2, 2) + r.choice([0, 0, 1, -1, 2, -2, 3, -3, 4]) * 360000001
        if abs(p) <= 1500000000:
            ev.append(norm_event(d, (p, r.randint(-90000000, 90000000))))
    for _ in range(7):
        q = sc.pair()
        if not q:
            continue
        mx, w = sc.radius(*q), sc.weight()
        ev.append(sc.ask(*q, mx, w))
        for _ in range(2):
            ev.append(sc.ask(sc.turned(q[0]), sc.turned(q[1]), mx, w))
        ev.append(sc.batch([(sc.turned(q[0]), q[1]), (q[0], sc.turned(q[1]))], mx, w))
    return ev


def C14():
    c = Check('C14')
    m = [scenario('C14', '%s%d' % (k, i), lambda d, r, k=k: periodic_scene(d, r, k))
         for i in range(scale(100, 3000)) for k in (('local', 'cut', 'cut', 'wide')[i % 4],)]
    m += [scenario('C14', 'vis%d' % i, lambda d, r: visible_scene(d, r, 'cut')) for i in range(scale(60, 1500))]
    c.campaign('CapiTrace', m, driver(), focus('normalised wrong', 'over the meridian wrong', 'copies wrong', 'changed answer',
                                               'batch differs', 'ends', 'no route', *VIS))
    tours.periodic_tour(c)
    c.finish()


def history_of_queries(d, r, kind):
    """Several computers on one graph asked the same questions in different orders, failing ones included"""
    sc = Scene(d, r, kind)
    if not sc.ws:
        return None
    ev = [sc.setup()]
    ev.append(graph_event(sc.fr, d('state', 'g')))
    d('comp', 'c2', 'g')
    qs = []
    greedy = r.random() < .4  # then what else there is besides the graph decides about the way taken
    for _ in range(r.randint(3, 7)):
        q = sc.pair()
        if q and greedy and r.random() < .7:
            q = (r.choice(sc.verts), q[1])
        if q and r.random() < .2:  # a point on land: fails
            x = sc.point(land=True)
            q = (x, q[1]) if x else q
        if q:
            mx = sc.radius(*q)
            mx = 0 if mx >= 0 and r.random() < .2 else mx
            qs.append((q, mx, r.choice([(4, 1), (8, 1), (20, 1)]) if greedy else sc.weight(), int(sc.kind == 'near' and r.random() < .5)))
    if not qs:
        return None
    for _ in range(r.randint(10, 20)):
        q, mx, w, corr = r.choice(qs)
        c = r.choice(['c', 'c', 'c2', 'fresh'])
        if c == 'fresh':
            d('comp', 'fresh', 'g')
        if r.random() < .75:
            ev.append(sc.ask(*q, mx, w, corr, comp=c))
        else:
            more = [x[0] for x in qs]
            d('threads', r.choice([1, 2, 4, 8]))
            ev.append(sc.batch([r.choice(more) for _ in range(r.randint(0, 6))] + [q], mx, w, corr, comp=c))
        if r.random() < .1:
            ev.append(graph_event(sc.fr, d('state', 'g'), 'state'))
    ev.append(graph_event(sc.fr, d('state', 'g'), 'state'))
    return ev


def recall_of_queries(d, r, kind):
    """Many questions in crowded waters, asked on computers of their own, then again after each other"""
    if kind == 'local':
        sc = Scene(d, r, kind, npoly=r.randint(8, 26), kmax=r.choice([3, 3, 5]), size=r.choice([2, 2, 4, 8]))
    else:
        sc = Scene(d, r, kind)
    if not sc.ws:
        return None
    ev = [sc.setup()]
    ws = [r.choice([(1, 1), (2, 1), (8, 1), (20, 1), (0, 1)]) for _ in range(2)]
    qs = []
    for _ in range(r.randint(15, 40)):
        q = sc.pair()
        if not q:
            continue
        k = r.random()
        if k < .6:
            q = (r.choice(sc.verts), r.choice(sc.verts) if k < .3 else q[1])
        elif k < .7:
            x = sc.point(land=True)
            q = (x, q[1]) if x else q
        mx = sc.radius(*q) if r.random() < .3 else -1
        qs.append((q, mx, r.choice(ws), int(sc.kind == 'near' and r.random() < .5)))
    if not qs:
        return None
    for q, mx, w, corr in qs:
        d('comp', 'fresh', 'g')
        ev.append(sc.ask(*q, mx, w, corr, comp='fresh'))
    for c in ('c', r.choice(['c', 'fresh'])):
        r.shuffle(qs)
        i = 0
        while i < len(qs):
            q, mx, w, corr = qs[i]
            n = r.randint(2, 8)
            if r.random() < .1:
                d('threads', r.choice([1, 2, 4, 8]))
                part = [x[0] for x in qs[i:i + n]]
                ev.append(sc.batch(part, mx, w, corr, comp=c))
                i += n
            else:
                ev.append(sc.ask(*q, mx, w, corr, comp=c))
                i += 1
    return ev


def C17():
    c = Check('C17')
    m = [scenario('C17', 'recall %s%d' % (k, i), lambda d, r, k=k: recall_of_queries(d, r, k))
         for i in range(scale(60, 1500)) for k in (('local', 'local', 'cut', 'local', 'near', 'wide')[i % 6],)]
    c.campaign('Recall', m, driver(), focus('changed answer', 'batch size'))
    m = [scenario('C17', '%s%d' % (k, i), lambda d, r, k=k: history_of_queries(d, r, k))
         for i in range(scale(120, 3000)) for k in (('local', 'cut', 'near', 'wide')[i % 4],)]
    c.campaign('CapiTrace', m, driver(), focus('changed answer', 'graph changed', 'batch differs'))
    tours.history_tour(c)
    c.finish()


# ---------------------------------------------------------------- geometry
import shapes


def geometry(prop, i, body, n):
    def fn(d):
        r = rng(prop, i)
        ev = []
        for _ in range(n):
            e = body(d, r)
            if e:
                ev.append(e)
        return ev
    return ('%s/%s' % (prop, i), fn)


def xy(cs):
    return '%d %s' % (len(cs), ' '.join('%d %d' % tuple(c) for c in cs))


def poly_event(d, r, n=0):
    P = shapes.star(r, n) if n else shapes.ring(r)
    if not P:
        return None
    P = geo.disguise(r, P)
    a = d('polys', 'p', 1, xy(P))
    out = a['polys'][0] if not a['thrown'] else []
    b = d('polys', 'p', 1, xy(out))
    return {'e': 'poly', 'ring': [list(p) for p in P], 'thrown': a['thrown'] or b['thrown'], 'out': out, 'again': (b.get('polys') or [[]])[0]}


def C13():
    c = Check('C13')
    m = [geometry('C13', i, poly_event, 12) for i in range(scale(200, 8000))]
    m += [geometry('C13', 'stars%d' % i, lambda d, r, n=n: poly_event(d, r, n), 2) for i in range(scale(4, 60)) for n in (30, 70, 140, 300)]
    c.campaign('GeomTrace', m, driver(), focus('vertex twice', 'corner lost', 'not a corner', 'not the same ring',
                                               'notation not stable', 'error'))
    cs = scale({'NX': 3, 'NY': 3, 'Corners': '{3, 4}'}, {'NX': 4, 'NY': 3, 'Corners': '{3, 4, 5}'})
    tours.geometry_tour(c, 'Ring', cs, ['repeats', 'wrap', 'left', 'direction'], tours.play_ring,
                        {'NX': 3, 'NY': 3, 'Corners': '{3, 4}'})
    c.finish()


def sort_event(d, r, n=None):
    o, pts = shapes.around(r, n)
    a = d('sort', '%d %d' % o, xy(pts))
    return {'e': 'sort', 'o': list(o), 'pts': [list(p) for p in pts], 'thrown': a['thrown'], 'out': a.get('sorted', [])}


def C20():
    c = Check('C20')
    m = [geometry('C20', i, sort_event, 10) for i in range(scale(200, 8000))]
    m += [geometry('C20', 'many%d' % i, lambda d, r, n=n: sort_event(d, r, n), 1) for i in range(scale(4, 60)) for n in (70, 130, 260)]
    c.campaign('GeomTrace', m, driver(), focus('not a permutation', 'not sorted', 'error'))
    tours.geometry_tour(c, 'Order', {'R': scale(1, 2), 'MaxLen': scale(4, 3)}, ['line', 'near', 'half'], tours.play_order,
                        {'R': 2, 'MaxLen': 2})
    c.finish()


def seg_event(d, r):
    q = shapes.segments(r)
    a = d('segpair', ' '.join('%d %d' % c for c in q))
    return {'e': 'seg', 'a': list(q[0]), 'b': list(q[1]), 'c': list(q[2]), 'd': list(q[3]), 'thrown': a['thrown'],
            'x': a.get('x', []), 'on': a.get('on', 0), 'o': {1: -1, 2: 1, 3: 0}.get(a.get('o'), 9), 'eq': a.get('eq', 0)}


def C23():
    c = Check('C23')
    m = [geometry('C23', i, seg_event, 50) for i in range(scale(200, 8000))]
    c.campaign('GeomTrace', m, driver(), focus('side wrong', 'on segment wrong', 'equality wrong', 'meeting wrong',
                                               'meeting point wrong', 'parallel ones meet', 'common end missed', 'error'))
    tours.geometry_tour(c, 'Meeting', {'NX': scale(3, 4), 'NY': scale(3, 4)}, ['line', 'open', 'side'], tours.play_meeting,
                        {'NX': 3, 'NY': 3})
    c.finish()


def index_scene(d, r, n=14, isles=0):
    ox = r.choice([0, r.randint(-179000000, 179000000)])
    E = 9000
    size = r.choice([400, 2000, 6000, 9000])
    if isles:
        size = r.choice([300, 900, 2500])
    ws = geo.world(r, isles or r.randint(1, 6), -E, E, -E, E, r.choice([5, 9]), size) if r.random() > .03 else []
    mu = lambda p: '%d %d' % (p[0] + ox, p[1])
    un = lambda s: [[s[0][0] - ox, s[0][1]], [s[1][0] - ox, s[1][1]]]
    Q = [geo.disguise(r, P) for P in ws]
    d('polys', 'p', len(Q), ' '.join('%d %s' % (len(P), ' '.join(mu(p) for p in P)) for P in Q))
    ev = [{'e': 'land', 'polys': [[list(p) for p in P] for P in ws]}]
    vs = [p for P in ws for p in P]

    def pt():
        k = r.random()
        if vs and k < .25:
            return r.choice(vs)
        if vs and k < .5:
            v = r.choice(vs)
            return (v[0] + r.randint(-300, 300), v[1] + r.randint(-300, 300))
        if ws and k < .65:
            P = r.choice(ws)
            return (r.randint(min(v[0] for v in P), max(v[0] for v in P)), r.randint(min(v[1] for v in P), max(v[1] for v in P)))
        return (r.randint(-E, E), r.randint(-E, E))
    for _ in range(n):
        p, q = pt(), pt()
        k = r.random()
        if k < .3:
            a = d('contained', 'p', mu(p))
            ev.append({'e': 'contained', 'p': list(p), 'v': a.get('v', -1), 'thrown': a['thrown']})
        elif k < .7:
            if p == q:
                continue
            a = d('crosses', 'p', mu(p), mu(q))
            ev.append({'e': 'crosses', 'p': list(p), 'q': list(q), 'v': a.get('v', -1), 'thrown': a['thrown'],
                       'segs': [un(s) for s in a.get('segs', [])]})
        elif k < .85:
            a = d('closest', 'p', mu(p))
            ev.append({'e': 'closest', 'p': list(p), 'thrown': a['thrown'], 'seg': un(a['seg']) if 'seg' in a else []})
        else:
            m = r.randint(1, 9000)
            a = d('within', 'p', mu(p), repr(m * 1e-6 * 3.141592653589793 / 180))
            ev.append({'e': 'within', 'p': list(p), 'd': m, 'thrown': a['thrown'], 'segs': [un(s) for s in a.get('segs', [])]})
    return ev


def C21():
    c = Check('C21')
    m = [scenario('C21', i, lambda d, r: index_scene(d, r)) for i in range(scale(300, 10000))]
    m += [scenario('C21', 'isles%d' % i, lambda d, r, n=n: index_scene(d, r, isles=n)) for i in range(scale(12, 400))
          for n in ((20, 40, 70)[i % 3],)]
    c.campaign('IndexTrace', m, driver(), focus('vertex contained', 'contained wrong', 'crossing missed', 'crossing invented',
                                                'crossing disagrees', 'crossing twice', 'crossings unordered', 'no closest',
                                                'not an edge', 'not the closest', 'near edge missed', 'far edge reported',
                                                'edge twice', 'error'))
    tours.index_tour(c)
    c.finish()


# ---------------------------------------------------------------- concurrent programs
def conc_program(r):
    nv = r.choice([3, 3, 4, 4, 5, 6, 8])
    nt = r.choice([2, 2, 2, 3, 3, 4, 6])
    hot = r.sample(range(1, nv + 1), r.choice([2, 2, 3, 3, min(4, nv)]))
    kinds = r.choice(['aArRhmn', 'aArRhmn', 'aArR', 'aAhmn', 'ahn', 'arn', 'ar', 'aA', 'AR', 'ARn', 'rRhm', 'ahmv'])

    def op():
        k = r.choice(kinds)
        a = r.choice(hot)
        b = r.choice(hot) if r.random() < .9 else r.randint(1, nv)
        if a == b and r.random() < .9:
            b = r.choice([h for h in hot if h != a])
        return '%s %d %d %d' % (k, a, b, r.choice([1, 2]) if k in 'aA' else 0)
    setup = [op() for _ in range(r.choice([0, 0, 1, 3]))]
    longest = 4 if nt < 4 else 2
    ts = [[op() for _ in range(r.randint(1, longest))] for _ in range(nt)]
    if r.random() < .2:  # a circle of vertices, every thread between two of them
        k = len(hot)
        ts = [['%s %d %d %d' % (r.choice('aArRhm'), hot[i % k], hot[(i + 1) % k], r.choice([1, 2])) for _ in range(r.choice([1, 2]))]
              for i in range(max(2, nt))]
    return nv, setup, ts


def C12():
    from build import build_conc
    from concurrent.futures import ThreadPoolExecutor
    c = Check('C12')
    exe = build_conc()
    conc_models(c)
    runs = scale(250, 4000)
    progs = [(i,) + conc_program(rng('C12', i)) for i in range(scale(160, 1600))]

    def line(p, seed=1, n=runs):
        return ' | '.join(['run %d %d %d' % (seed, n, p[1]), ' '.join(p[2])] + [' '.join(t) for t in p[3]])

    def batch(ps):
        r, d = [], core.Drv(exe, limit=300)
        for p in ps:
            a = d(line(p))
            r += [(p, h) for h in a['n']]
            if any(h['h'][-1]['e'] == 'stuck' for h in a['n']):
                d = core.Drv(exe, limit=300)
        d.close()
        return r
    seen = 0
    with ThreadPoolExecutor(max_workers=os.cpu_count()) as ex:
        for b in range(0, len(progs), 160):
            part = progs[b:b + 160]
            hs = [x for r in ex.map(batch, [part[i::16] for i in range(16)]) for x in r]
            seen += runs * len(part)
            traces = [h['h'] for _, h in hs]
            r, bad = tlc.validate('ConcTrace', traces, constants=focus('not atomic', 'final graph wrong', 'stuck', 'answer wrong'))
            c.states += r.distinct
            c.transitions += r.generated
            c.traces += len(traces)
            c.events += sum(map(len, traces))
            if not c.samples:
                c.samples = [json.dumps(min(traces, key=len))[:1500]]
            if bad is not None:
                p, h = hs[bad]
                c.violation({'scenario': 'program %d' % p[0], 'module': 'ConcTrace', 'complaint': r.state.get('why', r.violated),
                             'program': line(p, h['seed'], 1), 'seed of the schedule': h['seed'], 'trace': h['h'],
                             'constants': focus('not atomic', 'final graph wrong', 'stuck', 'answer wrong')})
    c.counts['executions'] = seen
    c.notes.append('traces are the distinct histories among the executions')
    c.finish()


def conc_models(c):
    cfg = lambda v, n, k: tlc.cfg_text(invariants=['NoLostUpdate', 'Answers'], deadlock=True, symmetry='Perms', constants={
        'NV': n, 'MaxOps': k, 'Threads': '{t1, t2}', 'Variant': '"%s"' % v})
    for n, k in scale([(2, 2), (3, 1)], [(2, 3), (3, 2)]):
        c.model('ConcStore, %d vertices, %d operations each' % (n, k), 'ConcStore', cfg('ok', n, k))
    for v, n, k, bad in (('order', 2, 1, 'Deadlock'), ('unlocked list', 3, 2, 'Answers'), ('early', 2, 1, 'NoLostUpdate'),
                         ('shared', 2, 1, 'Answers'), ('one', 3, 2, 'Answers')):
        c.model('ConcStore, mistake: ' + v, 'ConcStore', cfg(v, n, k), expect=bad)


# ---------------------------------------------------------------- the Python interface
import facade


def python_driver():
    from build import build_module
    pkg, so = facade.package(), build_module()
    cpp = driver()
    return lambda: facade.Both(cpp(), facade.PyDrv(pkg, so)), pkg


def in_scratch(prop, i, body):
    def fn(b):
        scratch = tempfile.mkdtemp(prefix='capi.')
        try:
            return body(b, rng(prop, i), scratch)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    return ('%s/%s' % (prop, i), fn)


def reader_scene(b, r, scratch, large=False):
    ids, ev = {}, []

    def num(p):
        return ids.setdefault((float(p[0]), float(p[1])), len(ids) + 1)
    for k in range(r.randint(1, 4)):
        name = r.choice(['a', 'b.c', 'land'])
        path = os.path.join(scratch, name + str(k) if r.random() < .5 else 'same')  # files are replaced, too
        for x in ('.shp', '.shx', '.dbf'):
            if os.path.exists(path + x):
                os.remove(path + x)
        recs = []
        many = large and r.random() < .5
        for _ in range(r.choice([60, 150, 300]) if many else r.choice([0, 1, 2, 3, 6, 12])):
            kind = r.choice([facade.POLYGON] * 8 + [facade.NULL, facade.POINT, facade.POLYLINE, facade.MULTIPOINT,
                                                   facade.POLYGONZ, facade.POLYGONM])
            parts = []
            for _ in range(r.choice([1, 2, 40, 100]) if large and not many else r.choice([1, 1, 1, 2, 3])):
                n = r.choice([1, 2, 3, 3, 4, 5, 5, 8, 12, 40] if not large else [3, 4, 5] if many else [3, 5, 8, 300, 1100])
                c = (r.uniform(-179, 179), r.uniform(-89, 89))
                style = r.random()
                ring = [(c[0] + r.uniform(-1, 1), c[1] + r.uniform(-1, 1)) if style < .6 else
                        (round(c[0]) + r.randint(-2, 2), round(c[1]) + r.randint(-1, 1)) for _ in range(n)]
                if r.random() < .1 and n > 2:
                    ring[r.randrange(n)] = ring[0]
                parts.append(ring + ring[:1])
            if kind == facade.POINT:
                parts = [parts[0][:1]]
            if kind == facade.NULL:
                parts = []
            recs.append((kind, parts))
        facade.write_shp(path, recs, kind=r.choice([facade.POLYGON, facade.POLYGON, recs[0][0] if recs else facade.POLYGON]),
                         dbf=r.random() < .85)
        before = [open(path + x, 'rb').read() for x in ('.shp', '.shx')]
        names = sorted(os.listdir(scratch))
        for _ in range(r.choice([1, 1, 2])):
            a = b.py.call('read', shp=path + ('.shp' if '.' in name else r.choice(['', '.shp'])))
            same = before == [open(path + x, 'rb').read() for x in ('.shp', '.shx')] and names == sorted(os.listdir(scratch))
            ev.append({'e': 'read', 'thrown': a['thrown'], 'same': int(same),
                       'records': [{'kind': 'POLYGON' if k == facade.POLYGON else 'OTHER',
                                    'rings': [[num(p) for p in ring] for ring in ps]} for k, ps in recs],
                       'out': [[num(p) for p in ring] for ring in a.get('polys', [])]})
    return ev


def C22():
    from build import build_module
    c = Check('C22')
    dr, pkg = python_driver()
    try:
        m = [in_scratch('C22', i, reader_scene) for i in range(scale(250, 8000))]
        m += [in_scratch('C22', 'large%d' % i, lambda b, r, s: reader_scene(b, r, s, True)) for i in range(scale(5, 100))]
        c.campaign('ReaderTrace', m, dr, focus('failed', 'number of polygons', 'polygon wrong', 'file changed'))
        tours.reader_tour(c, build('driver'), pkg, build_module())
    finally:
        shutil.rmtree(pkg, ignore_errors=True)
    c.finish()


class Facade:
    def __init__(self, b, r, scratch):
        self.b, self.d, self.r, self.scratch = b, b.cpp, r, scratch
        self.st = Store(b.cpp, r, scratch)
        self.ev = self.st.ev
        self.nf = self.nq = self.opened = 0
        self.d('reset')

    def path(self, name):
        return os.path.join(self.scratch, name)

    def shapefile(self, name, fr, ws):
        """Writes it and has the core make its graph"""
        r = self.r
        rings = [[fr.mu(p) for p in geo.disguise(r, P)] for P in ws]
        recs = [(facade.POLYGON, [[(facade.deg(x), facade.deg(y)) for x, y in R] for R in [ring if ring[0] == ring[-1] and len(ring) > 1 else ring + ring[:1]]])
                for ring in rings]
        for rec in recs:
            if r.random() < .2:  # a further part is no polygon of its own
                x, y = rec[1][0][0]
                rec[1].append([(x, y), (x + .01, y), (x, y + .01), (x, y)])
        for _ in range(r.choice([0, 0, 1, 3])):
            recs.insert(r.randint(0, len(recs)), facade.noise(r, (r.uniform(-170, 170), r.uniform(-80, 80))))
        facade.write_shp(self.path(name), recs)
        rings = [R[:-1] if R[0] == R[-1] else R for R in rings]
        polys = self.st.polys('p' + name, rings)
        self.d('gen', 'core' + name, 'p' + name)
        o = self.st.observe('core' + name)
        self.ev.append(dict(e='core', shp=name, **{k: o[k] for k in ('polys', 'verts', 'edges')}))
        return polys

    def tree(self, name):
        return self.b.py.call('tree', paths=[self.path(name)])['tree'][0]

    def load(self, g, name):
        """The core loads what a folder holds (from a copy without blanks in its path)"""
        f = self.b.py.call('file', folder=self.path(name))['file']
        if not os.path.isfile(f):
            return 'no such file'
        shutil.copyfile(f, self.path('copy'))
        return self.d('load', g, self.path('copy'))['thrown']

    def loaded(self, name):
        t = self.load('made', name)
        if t:
            return {'thrown': t, 'verts': [], 'edges': [], 'polys': []}
        o = self.st.observe('made')
        return {k: o[k] for k in ('thrown', 'polys', 'verts', 'edges')}

    def write(self, e, name, call, **q):
        before = self.tree(name)
        a = self.b.py.call(call, out=self.path(name), **q)
        made = {'thrown': 'not made', 'verts': [], 'edges': [], 'polys': []}
        after = self.tree(name)
        if before == '' and not a['thrown']:
            made = self.loaded(name)
        self.ev.append(dict(e, out=name, thrown=a['thrown'], before=before, after=after, made=made, ranges=a['ranges']))
        return before == '' and not a['thrown']

    def generate(self, shp, out):
        return self.write({'e': 'generate', 'shp': shp}, out, 'generate', shp=self.path(shp))

    def range(self, shp, out, k, n, seed):
        return self.write({'e': 'range', 'shp': shp, 'k': k, 'n': n, 'seed': seed}, out, 'range', shp=self.path(shp),
                          k=k, n=n, seed=seed)

    def merge(self, ins, out):
        return self.write({'e': 'merge', 'ins': list(ins)}, out, 'merge', ins=[self.path(i) for i in ins])


def facade_scene(b, r, scratch):
    f = Facade(b, r, scratch)
    sc = Scene(b.cpp, r, r.choice(['local', 'local', 'wide', 'cut']))
    fr, ws = (sc.fr, sc.ws) if r.random() > .05 else (sc.fr, [])
    names = ['land.shp']
    polys = f.shapefile('land', fr, ws)
    nv = sum(len(p) for p in polys)
    made = []

    def fresh():
        f.nf += 1
        return r.choice(['out%d', 'o ut%d', 'g.%d']) % f.nf
    # what stands in the way
    odd = []
    os.mkdir(f.path('empty'))
    os.mkdir(f.path('full'))
    with open(f.path('full/default'), 'wb') as h:
        h.write(b'precious')
    with open(f.path('plain'), 'wb') as h:
        h.write(b'precious')
    odd = ['empty', 'full', 'plain']
    g = fresh()
    if f.generate('land', g):
        made.append(g)
    n = r.choice([1, 2, 3, 4, 5, max(1, nv - 1), max(1, nv), nv + 1, nv + 3])
    n = min(n, 12)
    seed = r.choice([0, 1, 42, r.getrandbits(31)])
    ks = list(range(n))
    r.shuffle(ks)
    if r.random() < .2:
        ks = ks[:-1]
    shards = []
    for k in ks:
        o = fresh()
        if f.range('land', o, k, n, seed):
            shards.append(o)
    made += shards
    if shards:
        o = fresh()
        if f.merge(r.sample(shards, len(shards)), o):
            made.append(o)
        if r.random() < .5:
            o = fresh()
            if f.merge([r.choice(made) for _ in range(r.randint(1, 3))], o):
                made.append(o)
    for _ in range(r.randint(1, 3)):  # outputs that exist
        o = r.choice(odd + made)
        k = r.random()
        if k < .4:
            f.generate('land', o)
        elif k < .7:
            f.range('land', o, 0, r.randint(1, 3), seed)
        elif made:
            f.merge([r.choice(made)], o)
    # and the graphs are still what they were
    for o in made[:3]:
        f.ev.append(dict(e='still', out=o, made=f.loaded(o)))
    if not made:
        return f.ev
    folder = r.choice(made[:1] + made)
    ask = questions(f, fr, ws, folder)
    ask()
    if r.random() < .4:  # the folder goes and another world's graph takes its place
        sc = Scene(b.cpp, r, r.choice(['local', 'wide', 'cut']))
        fr, ws = sc.fr, sc.ws
        again = r.choice(['land', 'land2'])
        f.shapefile(again, fr, ws)
        shutil.rmtree(f.path(folder))
        if f.generate(again, folder):
            anew = questions(f, fr, ws, folder)
            anew()
            ask()  # who loaded the old graph still has it
            anew()
    return f.ev


def questions(f, fr, ws, folder):
    """Opens a folder; calling the result asks some questions of it"""
    r, d, py = f.r, f.d, f.b.py
    f.opened += 1
    name = '%s-%d' % (folder, f.opened)
    g, core = 'asked%d' % f.opened, 'core%d' % f.opened
    f.load(g, folder)
    d('comp', core, g)
    f.ev.append({'e': 'open', 'out': folder, 'thrown': py.call('interpolator', id=name, graph=f.path(folder))['thrown']})
    verts = [p for P in ws for p in P]
    known = {}

    def point():
        k = r.random()
        if verts and k < .25:
            return fr.mu(r.choice(verts))
        if verts and k < .7:
            v = fr.mu(r.choice(verts))
            p = (v[0] + r.randint(-3, 3) * fr.S, v[1] + r.randint(-3, 3) * fr.S)
        else:
            p = (r.randint(-179999999, 179999999), r.randint(-89000000, 89000000))
        return (max(-180000000, min(180000000, p[0])), max(-90000000, min(90000000, p[1])))

    def answer(s, t, o):
        a = d('path', core, '%d %d' % s, '%d %d' % t, repr(o.get('mx', float('inf'))), int(o.get('corr', False)), repr(float(o.get('w', 1.0))))
        key = (s, t, tuple(sorted(o.items())))
        if key not in known:
            f.nq += 1
            known[key] = f.nq
            f.ev.append({'e': 'answer', 'q': known[key], 'r': {'ok': a['ok'], 'path': [f.st.num(c) for c in a['path']]}})
        return known[key]

    def back(path):
        return [f.st.num((udeg(x), udeg(y))) if udeg(x) is not None and udeg(y) is not None else 0 for x, y in path or []]
    udeg = facade.udeg

    def some():
        for _ in range(r.randint(2, 7)):
            o = {}
            if r.random() < .4:
                o['mx'] = r.choice([r.uniform(0, 30), r.uniform(0, .2), 0.0, float('inf')])
            if r.random() < .5:
                o['corr'] = r.random() < .6
            if r.random() < .4:
                o['w'] = r.choice([0.0, .5, 1.5, 3.0])
            dg = lambda p: [facade.deg(p[0]), facade.deg(p[1])]
            if r.random() < .6:
                s, t = point(), point()
                q = answer(s, t, o)
                extra = {}
                if {'mx', 'corr', 'w'} <= set(o) and r.random() < .5:
                    extra['positional'] = 1
                a = py.call('interpolate', id=name, s=dg(s), d=dg(t), **o, **extra)
                f.ev.append({'e': 'ask', 'q': q, 'thrown': a['thrown'], 'path': back(a.get('path'))})
            else:
                ps = [(point(), point()) for _ in range(r.randint(0, 6))]
                if ps and r.random() < .3:
                    ps.append(r.choice(ps))
                qs = [answer(s, t, o) for s, t in ps]
                a = py.call('batch', id=name, pairs=[[dg(s), dg(t)] for s, t in ps], **o)
                f.ev.append({'e': 'batch', 'qs': qs, 'thrown': a['thrown'], 'paths': [back(p) for p in a.get('paths', [])],
                             'none': [int(p is None) for p in a.get('paths', [])], 'warnings': len(a.get('warnings', []))})
    return some


def C18():
    from build import build_module
    c = Check('C18')
    dr, pkg = python_driver()
    try:
        c.known(dr, {'truncated-degrees': truncated_degrees})
        m = [in_scratch('C18', i, facade_scene) for i in range(scale(100, 4000))]
        c.campaign('FacadeTrace', m, dr, focus('overwrote', 'failed', 'no graph', 'wrong graph', 'shards miss edges', 'wrong seed',
                                               'shards overlap', 'shards leave the range', 'shards miss a vertex', 'wrong path',
                                               'answered a failing query', 'batch size', 'warnings', 'changed'))
        tours.folder_tour(c, build('driver'), pkg, build_module())
    finally:
        shutil.rmtree(pkg, ignore_errors=True)
    c.finish()


def C25():
    from build import build_module
    c = Check('C25')
    scratch = tempfile.mkdtemp(prefix='capi.')
    pkg = facade.package()
    try:
        tours.values_tour(c, build('driver'), pkg, build_module())
        tours.module_tour(c, build_module(), scratch)
    finally:
        shutil.rmtree(pkg, ignore_errors=True)
        shutil.rmtree(scratch, ignore_errors=True)
    c.finish()
