import math
"""Behaviours that TLC generates from a model, one for every transition of its state graph, replayed on the real code."""
import json, os
from concurrent.futures import ProcessPoolExecutor
import tlc
from core import rng
from build import VERIF, build
from drv import Drv, DriverDied


def tour(c, name, module, constants, invariants=('Refines',), mistakes=None, variants=True, cap=None, seed=None, view='View', workers=1):
    """Checks the model exhaustively and returns the behaviours it prints. `mistakes`: values of the constant Variant under
    which an invariant must fail, so that the invariants are seen to have teeth."""
    cs = dict(constants, Variant='"ok"', Tell='TRUE') if variants else dict(constants, Tell='TRUE')
    r = c.model(name, module, tlc.cfg_text(invariants=invariants, view=view, constants=cs), workers=workers)
    for m, inv in (mistakes or {}).items():
        c.model('%s, mistake: %s' % (name, m), module,
                tlc.cfg_text(invariants=invariants, view=view, constants=dict(cs, Variant='"%s"' % m, Tell='FALSE')), expect=inv)
    bs = [json.loads(json.loads('"%s"' % l)[1:]) for l in r.printed]
    c.counts.setdefault('generated_behaviours', {})[name] = len(bs)
    if cap and len(bs) > cap:
        import random
        bs = random.Random(seed).sample(sorted(bs, key=json.dumps), cap)
    return bs


def _chunk(job):
    exe, play, part, env = job
    d = Drv(exe, env, 120)
    bad = None
    lines, spans = [], []
    try:
        for b in part:
            cmds = play(b)
            spans.append((len(lines), len(cmds)))
            lines += cmds
        answers = d.many(lines)
        for b, (s, n) in zip(part, spans):
            w = play(b, answers[s:s + n])
            if w:
                bad = {'complaint': w, 'behaviour': b, 'commands': lines[s:s + n], 'answers': answers[s:s + n]}
                break
    except (KeyError, IndexError, TypeError, ValueError) as e:
        if not d.failed:
            raise
        bad = {'complaint': 'a call failed that must not: ' + d.failed, 'detail': repr(e), 'commands': d.log[-60:]}
    except DriverDied as e:
        bad = {'complaint': 'the library crashed or hung', 'detail': str(e), 'commands': d.log[-60:]}
    d.close()
    return bad


def replay(c, name, exe, play, behaviours, env=None, size=400):
    """play(behaviour) gives driver commands; play(behaviour, answers) what is wrong with the answers (or None)."""
    jobs = [(exe, play, behaviours[i:i + size], env) for i in range(0, len(behaviours), size)]
    with ProcessPoolExecutor(max_workers=os.cpu_count()) as ex:
        first = next((bad for bad in ex.map(_chunk, jobs) if bad), None)
        ex.shutdown(wait=True, cancel_futures=True)
    if first:
        first['scenario'] = 'generated from ' + name
        c.violation(first)
    c.traces += len(behaviours)
    c.counts.setdefault('replayed_behaviours', {})[name] = len(behaviours)


# -- the graph store ---------------------------------------------------------
# Vertices 1, 2, 3 make the polygon, the others do not; some have equal hashes
COORD = {1: (0, 0), 2: (10, 1), 3: (5, 8), 4: (-7, 3), 5: (100, -100), 6: (120, -90), 9: (77, 77)}
NAMES = {'add': 'addedge', 'adddir': 'adddir', 'rem': 'remedge', 'remdir': 'remdir'}


def _at(v):
    return '%d %d' % COORD[v]


def _cmd(g, o):
    if o[0] == 'addvert':
        return 'addvert %s %s' % (g, _at(o[1]))
    return '%s %s %s %s%s' % (NAMES[o[0]], g, _at(o[1]), _at(o[2]), ' %d' % (o[3] - 1) if o[0].startswith('add') else '')


def _wrong(b, a, what):
    if a['thrown']:
        return '%s: error %s' % (what, a['thrown'])
    num = {c: v for v, c in COORD.items()}
    vs = [num[tuple(x)] for x in a['verts']]
    if sorted(vs) != sorted(b['verts']) or a['all'] != len(vs):
        return '%s: vertices %s, not %s' % (what, vs, b['verts'])
    edges = sorted([vs[i], vs[j], x] for i, j, x in a['edges'])
    if edges != sorted(b['edges']):
        return '%s: edges %s, not %s' % (what, edges, sorted(b['edges']))
    for v, n in zip(vs, a['nb']):
        if sorted(num[tuple(x)] for x in n) != sorted(e[1] for e in b['edges'] if e[0] == v):
            return '%s: neighbours of %d' % (what, v)
    return None


SETUP = 'polys p 1 3 0 0 10 1 5 8'


def play_graph(b, a=None):
    if a is None:
        return [SETUP, 'graph g p'] + [_cmd('g', o) for o in b['h']] + ['dump g']
    for o, x in zip(b['h'], a[2:]):
        if bool(x['thrown']) != bool(o[4]):
            return 'operation %s: %s' % (o, x['thrown'] or 'no error')
    w = _wrong(b, a[-1], 'graph')
    if not w and [tuple(x) for x in a[-1]['verts']] != [COORD[v] for v in b['verts']]:
        w = 'order of vertices'
    return w


def play_overlay(b, a=None):
    base = [('adddir', p, q, x) for p, q, bits in b['h']['base'] for x in (1, 2) if bits & x]
    if a is None:
        return ([SETUP, 'graph g p'] + [_cmd('g', o) for o in base] + ['dump g', 'overlay o g'] +
                [_cmd('o', o) for o in b['h']['ops']] + ['dump o', 'dump g'])
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    if a[2 + len(base)] != a[-1]:
        return 'the base graph changed'
    return _wrong(b, a[-2], 'overlay')


# -- merging and comparing ---------------------------------------------------
def _graph(g, b):
    ps = b['polys']
    return (['polys p%s %d %s' % (g, len(ps), ' '.join('%d %s' % (len(p), ' '.join(_at(v) for v in p)) for p in ps)),
             'graph %s p%s' % (g, g)] + ['adddir %s %s %s %d' % (g, _at(p), _at(q), x - 1) for p, q, x in b['edges']])


def play_merge(b, a=None):
    if a is None:
        return _graph('a', b['a']) + _graph('b', b['b']) + ['merge m 2 a b', 'merge n 2 b a', 'merge i 2 m m', 'dump m', 'dump n', 'dump i']
    for k in (-3, -2, -1):
        w = _wrong(b, a[k], ('merge', 'merge the other way around', 'merge of a merge with itself')[k])
        if w:
            return w
    want = sorted(sorted(COORD[v] for v in p) for p in {tuple(p) for g in 'ab' for p in b[g]['polys']})
    if sorted(sorted(tuple(v) for v in p) for p in a[-3]['polys']) != want:
        return 'polygons of the merge: %s' % a[-3]['polys']
    return None


def play_same(b, a=None):
    if a is None:
        return _graph('a', b['a']) + _graph('b', b['b']) + ['eq a b', 'eq b a', 'eq a a', 'text a', 'text b']
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    same = int(b['same'])
    for x, s in zip(a[-5:-2], (same, same, 1)):
        if x['eq'] != s or x['ne'] == s:
            return 'equal: %s, unequal: %s, but the graphs are %s' % (x['eq'], x['ne'], 'the same' if s else 'different')
    for x, g in zip(a[-2:], 'ab'):
        b.setdefault('texts', {})[g] = x['t']
    if same and a[-1]['t'] != a[-2]['t']:
        return 'texts of the same graph differ'
    if not same and a[-1]['t'] == a[-2]['t']:
        return 'texts of different graphs agree'
    return None


# -- graph files -------------------------------------------------------------
def u64(n):
    return list(n.to_bytes(8, 'little'))


def file_variants(b):
    """Other files that mean the same: with something behind, the edges across in another order"""
    body = list(b['bytes'])
    yield body
    yield body + [0] * 9
    yield body + [255] * 40
    nums = [j + (i * i + i) // 2 for i, j, x in b['edges'] if x == 1]
    if nums:  # as a longer table of another graph would leave them
        yield body + [x for n in nums + nums[:1] for x in u64(n)]
    m = sum(1 for e in b['edges'] if e[2] == 2)
    if m > 1:
        at = len(body) - 8 * m
        slots = [body[i:i + 8] for i in range(at, len(body), 8)]
        yield body[:at] + [x for s in reversed(slots) for x in s]


def play_file(b, a=None):
    """b: polys, edges and the path of a file that holds them"""
    if a is None:
        return ['load g ' + b['path'], 'dump g']
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    d = a[1]
    vs = [c for p in b['polys'] for c in p]
    if d['polys'] != b['polys']:
        return 'polygons %s' % d['polys']
    if d['verts'] != vs or d['all'] != len(vs):
        return 'vertices %s' % d['verts']
    if sorted(d['edges']) != sorted([e for i, j, x in b['edges'] for e in ([i, j, x], [j, i, x])]):
        return 'edges %s, not %s' % (d['edges'], b['edges'])
    return None


# -- what is visible in small worlds -----------------------------------------
TURN = 360000001


def _ring(P):
    return '%d %s' % (len(P), ' '.join('%d %d' % tuple(p) for p in P))


def gaps(b):
    """Columns before which the antimeridian may run without cutting a polygon"""
    xs = [p[0] for P in b['polys'] for p in P] + [b['o'][0]]
    return [k for k in range(min(xs) + 1, max(xs) + 1)
            if all(max(p[0] for p in P) < k or min(p[0] for p in P) >= k for P in b['polys'])]


def rim(f, k, r):
    f['cut'] = k
    f['ox'] = 180000000 - (k - 1) * f['S'] - r.choice([0, f['S'] - 1, r.randint(0, f['S'] - 1)])
    mid = f['ox'] - TURN + k * f['S']
    f['walls'] = (mid + 90000000, mid + 270000000)


def place(b, r):
    """Puts a small world somewhere on the map, perhaps on both sides of the antimeridian, with walls a quarter turn away
    on either side so that nothing is seen around the earth"""
    cuts = gaps(b)
    S = r.choice([1000, 3023, 40000, 119087, 3000000])
    f = {'S': S, 'oy': r.randint(-60000000, 40000000), 'cut': None, 'half': r.randint(0, 1)}
    if cuts and r.random() < .6:
        rim(f, r.choice(cuts), r)
    else:
        f['ox'] = r.randint(-80000000, 60000000) if r.random() < .9 else 0
        f['walls'] = (f['ox'] - 90000000, f['ox'] + 100000000)
    return f


def _mu(f, p):
    x = f['ox'] + f['S'] * p[0]
    return (x - TURN if x > 180000000 else x, f['oy'] + f['S'] * p[1])


def _side(f, p):
    return 0 if f['cut'] is None else int(p[0] >= f['cut'])


def _land(f, polys):
    walls = [[(w, -89000000), (w + 1000000, -89000000), (w + 1000000, 89000000), (w, 89000000)] for w in f['walls']]
    ps = [[_mu(f, p) for p in P] for P in polys] + walls
    return 'polys p %d %s' % (len(ps), ' '.join(_ring(P) for P in ps))


def play_visible(b, a=None):
    """The same tree is asked for everything, for what is not below the observer, and for both in the other order"""
    f = b['frame']
    if a is None:
        ask = lambda half, kind=b.get('periodic', 1): 'visible p %d %d %d %d' % ((kind, half) + _mu(f, b['o']))
        more = [] if 'periodic' in b else [ask(f['half'], 3), ask(f['half'], 5)]  # the same by way of the segments
        return [_land(f, b['polys']), ask(f['half']), ask(1 - f['half']), ask(f['half'])] + more
    for x, half in zip(a[1:], (f['half'], 1 - f['half'], f['half'], f['half'], f['half'])):
        bad = _visible_wrong(b, f, x, half)
        if bad:
            return bad
    return None


def _visible_wrong(b, f, a, half):
    if a['thrown']:
        return 'error ' + a['thrown']
    vis = {(x, y): set() for x, y, _ in a['vis']}
    for x, y, k in a['vis']:
        vis[x, y].add(k)
    ups = lambda v: not half or v[1] >= b['o'][1]
    for v in b['must']:
        if ups(v) and int(_side(f, v) != _side(f, b['o'])) not in vis.get(_mu(f, v), ()):
            return 'does not see %s' % v
    every = [p for P in b['polys'] for p in P if p != b['o']]
    for v in every:
        got = vis.get(_mu(f, v), set())
        if v in b['not'] or not ups(v):
            if got:
                return 'sees %s through land' % v
        elif got - {int(_side(f, v) != _side(f, b['o']))}:
            return 'sees %s the long way around' % v
    return None


def worlds_of(bs):
    """The behaviours of one world together: which pairs of its vertices must or must not be joined"""
    out = {}
    for b in bs:
        key = json.dumps(b['polys'])
        w = out.setdefault(key, {'polys': b['polys'], 'o': b['o'], 'must': [], 'not': []})
        if any(b['o'] in P for P in b['polys']):
            w['must'] += [[b['o'], v] for v in b['must']]
            w['not'] += [[b['o'], v] for v in b['not']]
    return list(out.values())


def play_generated(b, a=None):
    f = b['frame']
    if a is None:
        return [_land(f, b['polys']), 'gen g p', 'state g']
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    pos = {tuple(v): i for i, v in enumerate(a[2]['verts'])}
    vs = [p for P in b['polys'] for p in P]
    if len(pos) != len(vs) + 8 or any(_mu(f, v) not in pos for v in vs):
        return 'vertices'
    for x in vs:
        for y in vs:
            if x == y:
                continue
            k = a[2]['m'][pos[_mu(f, x)]][pos[_mu(f, y)]]
            want = 1 + int(_side(f, x) != _side(f, y))
            if [x, y] in b['must'] and k != want:
                return '%s and %s are joined by %d, not %d' % (x, y, k, want)
            if [x, y] in b['not'] and k != 0:
                return '%s and %s are joined through land' % (x, y)
            if k not in (0, want):
                return '%s and %s are joined the long way around' % (x, y)
    return None


def disguised(b, r):
    """The polygons written down otherwise and in another order"""
    import geo
    f = b['frame']
    walls = [[(w, -89000000), (w + 1000000, -89000000), (w + 1000000, 89000000), (w, 89000000)] for w in f['walls']]
    ps = [geo.disguise(r, [_mu(f, p) for p in P]) for P in b['polys']] + walls
    r.shuffle(ps)
    return 'polys q %d %s' % (len(ps), ' '.join(_list(P) for P in ps))


def play_disguised(b, a=None):
    """The graph of every world, again by several threads, of other notations and for the whole range"""
    f = b['frame']
    if a is None:
        return [_land(f, b['polys']), 'threads 1', 'gen g p', b['again'], 'threads %d' % b['threads'], 'gen h q', 'eq g h',
                'genrange i q 0 %d %d' % (b['n'], b['seed']), 'eq g i']
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    for k, what in ((6, 'in another notation'), (8, 'for the whole range')):
        if not a[k]['eq'] or a[k]['ne']:
            return 'the graph differs ' + what
    return None


def play_sharded(b, a=None):
    """The graph of every world, and merged from shards"""
    f = b['frame']
    names = ['s%d' % i for i in range(len(b['cuts']) + 1)]
    ends = [0] + b['cuts'] + [b['n']]
    if a is None:
        order = names[b['seed'] % len(names):] + names[:b['seed'] % len(names)]
        return [_land(f, b['polys']), 'gen g p'] + ['genrange %s p %d %d %d' % (s, x, y, b['seed']) for s, x, y in zip(names, ends, ends[1:])] + [
            'merge m %d %s' % (len(order), ' '.join(order)), 'eq g m']
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    if not a[-1]['eq'] or a[-1]['ne']:
        return 'the merged graph differs from the whole'
    return None


def sweep(c, plays, sizes, mistakes=('first', 'initial', 'barrier'), exe=None):
    """sizes: (kind, width, height)...; exe: the Python module instead of the driver"""
    bs = []
    for kind, x, y in sizes:
        name = 'Sweep, %s, %d x %d' % (kind, x, y)
        bs += tour(c, name, 'Sweep', {'NX': x, 'NY': y, 'Kind': '"%s"' % kind}, view=None, workers=os.cpu_count())
    for m in mistakes:
        c.model('Sweep, mistake: ' + m, 'Sweep', tlc.cfg_text(invariants=['Refines'], constants={
            'NX': 3, 'NY': 3, 'Kind': '"four"', 'Variant': '"%s"' % m, 'Tell': 'FALSE'}), expect='Refines')
    bs.sort(key=json.dumps)
    r = rng(c.prop, 'sweep')
    for name, play in plays:
        todo = bs if play is play_visible else worlds_of(bs)
        for b in todo:
            b['frame'] = place(b, r)
            while exe and play in (play_visible, play_generated) and b['frame']['cut'] is not None:
                b['frame'] = place(b, r)  # the module neither makes land periodic nor tells flags of edges
            if exe:
                b['periodic'] = 0
            n = sum(len(P) for P in b['polys']) + 8
            b['n'] = n
            if play is play_disguised:
                b.update(again=disguised(b, r), threads=r.choice([2, 3, 4, 8]), seed=r.getrandbits(31))
            if play is play_sharded:
                b.update(cuts=sorted(r.randint(0, n) for _ in range(r.randint(0, 4))), seed=r.getrandbits(31))
        replay(c, 'Sweep (%s)' % name, exe or build('driver'), play, todo, size=100)


# -- routes over small networks ------------------------------------------------
def _node(b, i):
    dx, y = b['at']
    return (b['x'][i - 1] * 45000000 + dx, y)


def play_route(b, a=None):
    """Every node is a corner of an island of its own"""
    n = len(b['x'])
    nodes = [_node(b, i) for i in range(1, n + 1)]
    if a is None:
        return (['polys p %d %s' % (n, ' '.join(_ring([(x, y), (x + 100000, y + 500000), (x + 20000, y + 600000)]) for x, y in nodes)),
                 'graph g p'] +
                ['addedge g %d %d %d %d %d' % (_node(b, i) + _node(b, j) + (k - 1,)) for i, j, k in b['edges']] +
                ['comp c g', 'path c %d %d %d %d %s 0 %r' % (nodes[0] + nodes[-1] + (
                    'inf' if b['R'] >= 1000 else repr((b['R'] + .25) * 45.0), b['w'][0] / b['w'][1]))])
    for x in a[:-1]:
        if x['thrown']:
            return 'error ' + x['thrown']
    r = a[-1]
    if not r['ok']:
        return None if b['best'] >= 1000000 else 'no route, but there is one of %d' % b['best']
    if b['best'] >= 1000000:
        return 'a route where there is none: %s' % r['path']
    num = {c: i for i, c in enumerate(nodes, 1)}
    path = [num.get(tuple(p)) for p in r['path']]
    if None in path or path[:1] != [1] or path[-1:] != [n]:
        return 'route %s' % r['path']
    lab = {}
    for i, j, k in b['edges']:
        lab[i, j] = lab[j, i] = k
    length = 0
    for i, j in zip(path, path[1:]):
        dx = abs(b['x'][i - 1] - b['x'][j - 1])
        if (i, j) not in lab:
            return 'route %s takes an edge that is not there' % path
        length += dx if lab[i, j] == 1 else 8 - dx
        dx = abs(b['x'][0] - b['x'][j - 1])
        if b['about'] == 'radius' and min(dx, 8 - dx) > b['R']:
            return 'route %s leaves the radius' % path
    if b['about'] == 'length' and length * b['w'][1] > b['best'] * max(b['w']):
        return 'route %s is %d long, the shortest is %d' % (path, length, b['best'])
    return None


def routes(c, about, mistakes):
    from core import scale
    size = scale('Few', 'Many')
    cs = {'W': 8, 'Layouts': '<- ' + size, 'Weights': '<- Weights' + size, 'Radii': '<- Radii' + size}
    bs = tour(c, 'AStar', 'AStar', cs, view=None, workers=os.cpu_count())
    for m in mistakes:
        c.model('AStar, mistake: ' + m, 'AStar', tlc.cfg_text(invariants=['Refines'], constants=dict(
            cs, Layouts='<- Few', Weights='<- WeightsFew', Radii='<- RadiiFew', Variant='"%s"' % m, Tell='FALSE')), expect='Refines')
    bs.sort(key=json.dumps)
    r = rng(c.prop, 'AStar')
    for b in bs:
        b['about'] = about
        b['at'] = (r.choice([0, 44800000, r.randint(0, 44800000)]), r.choice([0, r.randint(-60000000, 60000000)]))
    replay(c, 'AStar', build('driver'), play_route, bs, size=200)


# -- geometry on small grids ---------------------------------------------------
def somewhere(r, w, h):
    """Scale and origin that put a w x h grid on the map, at its rims now and then, or on a copy of it"""
    S = min(r.choice([1, 1, 2, 7, 1000, 3023, 1234567, 9999999, 10 ** 9]), 360000000 // max(w, 1), 180000000 // max(h, 1))
    ox = r.choice([-180000000, 180000000 - w * S, r.randint(-180000000, 180000000 - w * S), r.randint(-180000000, 180000000 - w * S)])
    oy = r.choice([-90000000, 90000000 - h * S, r.randint(-90000000, 90000000 - h * S), r.randint(-90000000, 90000000 - h * S)])
    return S, ox + r.choice([0, 0, 0, 0, TURN, -TURN]), oy


def _put(f, p):
    return (f[1] + f[0] * p[0], f[2] + f[0] * p[1])


def _list(ps):
    return '%d %s' % (len(ps), ' '.join('%d %d' % p for p in ps))


def play_ring(b, a=None):
    f = b['frame']
    if a is None:
        return ['polys p 1 ' + _list([_put(f, p) for p in b['ring']])]
    if a[0]['thrown']:
        return 'error ' + a[0]['thrown']
    out = [tuple(p) for p in a[0]['polys'][0]]
    want = [_put(f, p) for p in b['shape']]
    if not any(out == want[k:] + want[:k] for k in range(len(want))):
        return 'the corners are %s, not %s' % (out, want)
    return None


def play_order(b, a=None):
    f = b['frame']
    if a is None:
        return ['sort %d %d %s' % (_put(f, (0, 0)) + (_list([_put(f, p) for p in b['given']]),))]
    if a[0]['thrown']:
        return 'error ' + a[0]['thrown']
    want = [_put(f, p) for p in b['sorted']]
    if [tuple(p) for p in a[0]['sorted']] != want:
        return 'sorted %s, not %s' % (a[0]['sorted'], want)
    return None


def play_meeting(b, a=None):
    f = b['frame']
    if a is None:
        return ['segpair %d %d %d %d %d %d %d %d' % tuple(x for p in b['s'] for x in _put(f, p))]
    r = a[0]
    if r['thrown']:
        return 'error ' + r['thrown']
    if {1: -1, 2: 1, 3: 0}.get(r['o']) != b['side'] or bool(r['on']) != b['on'] or bool(r['eq']) != b['eq']:
        return 'side, on or equal: %s' % r
    if b['par']:
        ends = [_put(f, p) for p in b['s']]
        common = set(ends[:2]) & set(ends[2:])
        if bool(r['x']) != bool(common) or r['x'] and tuple(r['x'][0]) not in common:
            return 'parallel segments meet in %s' % r['x']
    elif bool(r['x']) != bool(b['x']):
        return 'meet: %s' % r['x']
    elif b['x']:
        n = b['x'][2]
        for k in (0, 1):
            if abs((r['x'][0][k] - f[1 + k]) * n - f[0] * b['x'][k]) > abs(n):
                return 'meet in %s' % r['x']
    return None


def geometry_tour(c, module, consts, mistakes, play, base, cap=None):
    from core import scale
    bs = tour(c, module, module, consts, view=None, workers=os.cpu_count())
    for m in mistakes:
        c.model('%s, mistake: %s' % (module, m), module, tlc.cfg_text(invariants=['Refines'], constants=dict(
            base, Variant='"%s"' % m, Tell='FALSE')), expect='Refines')
    bs.sort(key=json.dumps)
    r = rng(c.prop, module)
    for b in bs:
        b['frame'] = somewhere(r, *(b_extent(b)))
        if module == 'Order':
            f = b['frame']
            b['frame'] = (f[0], f[1] + f[0] * consts['R'], f[2] + f[0] * consts['R'])
    replay(c, module, build('driver'), play, bs, size=2000)


def b_extent(b):
    if 'given' in b:
        return (4, 4)
    ps = b.get('ring') or b['s']
    return max(p[0] for p in ps), max(p[1] for p in ps)


# -- the index of land edges ---------------------------------------------------
def play_index(b, a=None):
    S, ox, oy, want = b['frame']
    at = lambda p: '%d %d' % (ox + S * p[0], oy + S * p[1])
    cmds, judge = ['polys p %d %s' % (len(b['polys']), ' '.join(_list([_put(b['frame'], p) for p in P]) for P in b['polys']))], [None]

    def ask(cmd, j):
        cmds.append(cmd)
        judge.append(j)
    for p in b['inside']:
        ask('contained p ' + at(p), ('inside', p, 1))
    for p in b['outside']:
        ask('contained p ' + at(p), ('inside', p, 0))
    for p, es in b['near']:
        ask('closest p ' + at(p), ('near', p, es))
    for p, ds in b['far']:
        d = sorted({(n / k) ** .5 for _, (n, k) in ds})
        lim = want * (d[-1] + 1)
        m = max([x for x in d if x < lim], default=0)
        nxt = min([x for x in d if x >= lim], default=m + 2)
        cut = (m + nxt) / 2
        if cut > 0:
            ask('within p %s %r' % (at(p), cut * S * 1e-6 * 3.141592653589793 / 180),
                ('within', p, [e for e, (n, k) in ds if (n / k) ** .5 < cut]))
    for p, q, must, mustnot in b['cross']:
        ask('crosses p %s %s' % (at(p), at(q)), ('cross', (p, q), must, mustnot))
    if a is None:
        return cmds

    def edge(s):
        return [[(x - ox) / S, (y - oy) / S] for x, y in s]

    def among(s, es):
        return edge(s) in es or edge(s)[::-1] in es
    for x, j in zip(a, judge):
        if x['thrown']:
            return 'error ' + x['thrown']
        if j is None:
            continue
        if j[0] == 'inside' and x['v'] != j[2]:
            return '%s contained: %d' % (j[1], x['v'])
        if j[0] == 'near' and not among(x['seg'], j[2]):
            return 'closest to %s: %s, not one of %s' % (j[1], edge(x['seg']), j[2])
        if j[0] == 'within' and (len(x['segs']) != len(j[2]) or not all(among(s, j[2]) for s in x['segs'])):
            return 'near %s: %s, not %s' % (j[1], [edge(s) for s in x['segs']], j[2])
        if j[0] == 'cross':
            got = [edge(s) for s in x['segs']]
            if any(e not in got and e[::-1] not in got for e in j[2]) or any(e in got or e[::-1] in got for e in j[3]):
                return '%s crosses %s, not %s' % (j[1], got, j[2])
            if bool(x['v']) != bool(got):
                return '%s crosses: %s %s' % (j[1], x['v'], got)
            p = j[1][0]
            d = [_dist(p, e) for e in got]
            if any(d[i] > d[i + 1] + 1e-3 for i in range(len(d) - 1)):
                return '%s crosses %s in this order' % (j[1], got)
    return None


def _dist(p, e):
    (x1, y1), (x2, y2) = e
    dx, dy = x2 - x1, y2 - y1
    t = max(0, min(1, ((p[0] - x1) * dx + (p[1] - y1) * dy) / (dx * dx + dy * dy)))
    return ((x1 + t * dx - p[0]) ** 2 + (y1 + t * dy - p[1]) ** 2) ** .5


def index_tour(c):
    from core import scale
    r = rng(c.prop, 'index')
    bs = []
    for kind, x, y in scale([('four', 3, 3), ('two', 3, 3)], [('four', 4, 3), ('three', 4, 4), ('two', 4, 3)]):
        bs += tour(c, 'SpatialIndex, %s, %d x %d' % (kind, x, y), 'SpatialIndex', {'NX': x, 'NY': y, 'Kind': '"%s"' % kind},
                   view=None, workers=os.cpu_count())
    base = {'NX': 3, 'NY': 3, 'Kind': '"two"', 'Tell': 'FALSE'}
    c.model('SpatialIndex, questions', 'SpatialIndex', tlc.cfg_text(invariants=['Refines'], constants=dict(base, Variant='"ok"')),
            workers=os.cpu_count())
    for m in ('ends', 'box', 'parity', 'last'):
        c.model('SpatialIndex, mistake: ' + m, 'SpatialIndex', tlc.cfg_text(invariants=['Refines'], constants=dict(
            base, Variant='"%s"' % m)), expect='Refines')
    bs.sort(key=json.dumps)
    for b in bs:
        S = r.choice([1000, 777, 3023])
        b['frame'] = (S, r.choice([0, r.randint(-179000000, 179000000)]), r.randint(-2000, 2000), r.random())
    replay(c, 'SpatialIndex', build('driver'), play_index, bs, size=25)


# -- batches -------------------------------------------------------------------
BATCH_LAND = ('polys p 3 3 0 0 1000000 0 500000 1000000 '          # a small island
              '4 30000000 -40000000 31000000 -40000000 31000000 40000000 30000000 40000000 '   # a wall
              '3 -179000000 1000000 -178000000 1000000 -178500000 2000000')
QUERY = {'p-direct': (-1000000, 2000000, 1000000, 2500000), 'p-around': (-500000, 300000, 1500000, 200000),
         'p-same': (7000000, 7000000, 7000000, 7000000), 'p-corner': (500000, 1000000, 0, 0),
         'p-across': (179500000, 500000, -179000000, 1000000),
         'f-land': (500000, 300000, 3000000, 3000000), 'f-radius': (20000000, 0, 40000000, 0)}


def play_batch(b, a=None):
    ks = sorted(QUERY)
    if a is None:
        qs = ' '.join('%d %d %d %d' % QUERY[k] for k in b['batch'])
        return ([BATCH_LAND, 'gen g p', 'comp c g'] + ['path c %d %d %d %d 5.0 0 1.0' % QUERY[k] for k in ks] +
                ['%s' % x for t in (1, 2, 3, 8) for x in ('threads %d' % t, 'batch c 5.0 0 1.0 %d %s' % (len(b['batch']), qs))])
    for x in a[:3]:
        if x['thrown']:
            return 'error ' + x['thrown']
    alone = dict(zip(ks, a[3:]))
    for k in ks:
        if alone[k]['ok'] == k.startswith('f'):
            return '%s asked alone: %s' % (k, alone[k])
    for x in a[3 + len(ks) + 1::2]:
        if x['thrown'] or len(x['results']) != len(b['answers']):
            return 'batch: %s' % x
        for y, (kind, k) in zip(x['results'], b['answers']):
            if y['ok'] != (kind == 'path') or bool(y['haserr']) == y['ok'] or y['path'] != (alone[k]['path'] if y['ok'] else []):
                return '%s answered %s' % (k, y)
    return None


def batch_tour(c, exe=None):
    from core import scale
    kinds = '{"%s"}' % '", "'.join(sorted(QUERY))
    consts = {'Kinds': kinds, 'MaxLen': scale(3, 4), 'Threads': 2}
    bs = tour(c, 'Batch', 'Batch', consts)
    few = {'Kinds': '{"p-direct", "p-around", "f-land"}', 'MaxLen': 3, 'Threads': 2, 'Tell': 'FALSE'}
    for m in ('append', 'shared', 'stop', 'memo'):
        c.model('Batch, mistake: ' + m, 'Batch', tlc.cfg_text(invariants=['Refines'], view='View', constants=dict(
            few, Variant='"%s"' % m)), expect='Refines')
    c.model('Batch ends', 'Batch', tlc.cfg_text(spec='Spec', properties=['Ends'], constants=dict(few, Variant='"ok"')))
    seen = {json.dumps(b['batch']): b for b in bs}
    replay(c, 'Batch', exe or build('driver'), play_batch, [seen[k] for k in sorted(seen)], size=30)


# -- longitudes ----------------------------------------------------------------
def play_longitude(b, a=None):
    H, W, la = b['H'], 2 * b['H'] + 1, b['lat']

    def real(x):
        k = (x + H) // W
        y = x - k * W
        e = H - abs(y)
        y = (180000000 - e if y > 0 else -180000000 + e) if e <= b['rim'] else y * (180000000 // (H + 1))
        return k * TURN + y
    g = real(b['given'])
    if a is None:
        return ['normalize %d %d' % (g, la)]
    r = a[0]
    if r['thrown']:
        return 'error ' + r['thrown']
    if r['c'] != [real(b['c']), la]:
        return '%d is normalised to %s, not %d' % (g, r['c'], real(b['c']))
    if bool(r['over']) != b['over']:
        return '%d over the meridian: %d' % (g, r['over'])
    if sorted(r['per']) != sorted([g + d, la] for d in (0, TURN, -TURN)):
        return 'copies of %d: %s' % (g, r['per'])
    return None


def play_shifted(b, a=None):
    """Routes from one point to all corners, with the antimeridian elsewhere and in every gap of the world"""
    vs = [p for P in b['polys'] for p in P if p != b['o']]
    n = 3 + len(vs)
    if a is None:
        return [x for f in b['frames'] for x in [_land(f, b['polys']), 'gen g p', 'comp c g'] +
                ['path c %d %d %d %d inf 0 1.0' % (_mu(f, b['o']) + _mu(f, v)) for v in vs]]
    want = None
    for k, f in enumerate(b['frames']):
        part = a[k * n:(k + 1) * n]
        for x in part[:3]:
            if x['thrown']:
                return 'error ' + x['thrown']
        lens = []
        for v, x in zip(vs, part[3:]):
            if not x['ok']:
                lens.append(None)
                continue
            ps = []
            for q in x['path']:
                ps.append([q[0], q[1]])
                if len(ps) > 1:  # goes on the short way
                    while ps[-1][0] - ps[-2][0] > TURN // 2:
                        ps[-1][0] -= TURN
                    while ps[-2][0] - ps[-1][0] > TURN // 2:
                        ps[-1][0] += TURN
            if x['path'][0] != list(_mu(f, b['o'])) or x['path'][-1] != list(_mu(f, v)):
                return 'route %s' % x['path']
            lens.append(sum(((p[0] - q[0]) ** 2 + (p[1] - q[1]) ** 2) ** .5 for p, q in zip(ps, ps[1:])))
        if want is None:
            want = lens
        for v, x, y in zip(vs, want, lens):
            if (x is None) != (y is None) or x is not None and abs(x - y) > 12:
                return 'from %s to %s: %s, and %s with the antimeridian at %s' % (b['o'], v, x, y, f['cut'])
    return None


def periodic_tour(c):
    from core import scale
    r = rng(c.prop, 'periodic')
    base = {'H': 4, 'Turns': 4}
    bs = tour(c, 'Periodic', 'Periodic', base, view=None)
    for m in ('once', 'late', 'even', 'down'):
        c.model('Periodic, mistake: ' + m, 'Periodic', tlc.cfg_text(invariants=['Refines'], constants=dict(
            base, Variant='"%s"' % m, Tell='FALSE')), expect='Refines')
    c.model('Periodic ends', 'Periodic', tlc.cfg_text(spec='Spec', properties=['Ends'], constants=dict(base, Variant='"ok"', Tell='FALSE')))
    for b in bs:
        b.update(H=4, rim=r.choice([0, 1, 1, 2, 4]), lat=r.randint(-90000000, 90000000))
    replay(c, 'Periodic', build('driver'), play_longitude, bs)
    bs = []
    for kind, x, y in scale([('two', 3, 3), ('three', 4, 3)], [('two', 4, 3), ('three', 5, 3)]):
        bs += tour(c, 'Sweep, %s, %d x %d' % (kind, x, y), 'Sweep', {'NX': x, 'NY': y, 'Kind': '"%s"' % kind}, view=None, workers=os.cpu_count())
    bs.sort(key=json.dumps)
    todo = []
    for b in bs:
        cuts, f = gaps(b), place(b, r)
        fs = []
        for k in [None] + cuts:
            g = dict(f, cut=k, half=0)
            g['oy'] = f['oy'] // 4
            if k is None:
                g['ox'] = r.randint(-60000000, 60000000)
                g['walls'] = (g['ox'] - 90000000, g['ox'] + 100000000)
            else:
                rim(g, k, r)
            fs.append(g)
        if len(fs) > 1:
            todo.append(dict(b, frames=fs))
    replay(c, 'Sweep (shifted)', build('driver'), play_shifted, todo, size=50)


# -- queries in small worlds -----------------------------------------------------
def play_query(b, a=None):
    """All queries from some points of a world; b['about']: what is judged"""
    f = b['frame']
    todo = [(q['s'], x, q) for q in b['from'] for x in q['ask']]
    if a is None:
        return [_land(f, b['polys']), 'gen g p', 'comp c g'] + [
            'path c %d %d %d %d inf 0 %r' % (_mu(f, s) + _mu(f, x['d']) + (b['w'],)) for s, x, _ in todo]
    for x in a[:3]:
        if x['thrown']:
            return 'error ' + x['thrown']
    at = {_mu(f, v): v for P in b['polys'] for v in P}
    for (s, x, q), y in zip(todo, a[3:]):
        d, what = x['d'], 'from %s to %s: ' % (s, x['d'])
        if x['best'] == -1:
            if 'land' in b['about'] and not y['err']:
                return what + 'answered, though on land'
            continue
        if y['thrown'] or y['err']:
            if 'land' in b['about'] or 'route' in b['about']:
                return what + 'error ' + (y['thrown'] or y['err'])
            continue
        if not y['ok']:
            if x['best'] < 2000000000 and 'route' in b['about']:
                return what + 'no route, but there is one of %d' % x['best']
            continue
        path = [tuple(p) for p in y['path']]
        if path[0] != _mu(f, s) or path[-1] != _mu(f, d):
            return what + 'route %s' % path
        if any(p not in at for p in path[1:-1]):
            return what + 'route %s over strange points' % path
        pts = [s] + [at[p] for p in path[1:-1]] + [d]
        if 'land' in b['about']:
            cut = [{json.dumps(v) for v in e} for e in q['cut']]
            for u, v in zip(pts, pts[1:]):
                if u != v and ({json.dumps(u), json.dumps(v)} in cut or v == d and u in x['cut']):
                    return what + 'the leg from %s to %s passes through land' % (u, v)
        if 'length' in b['about']:
            length = sum(((u[0] - v[0]) ** 2 + (u[1] - v[1]) ** 2) ** .5 for u, v in zip(pts, pts[1:]))
            turns = sum(1 for u, v in zip(pts, pts[1:]) if _side(f, u) != _side(f, v))
            if length * 1000 > x['best'] + 3 + 1.5 * turns * 1000 / f['S']:
                return what + 'route %s is %.3f long, there is one of %d' % (pts, length, x['best'])
            if x['straight'] == 'c' and pts[1:-1] and any(
                    (v[0] - u[0]) * (d[1] - s[1]) != (v[1] - u[1]) * (d[0] - s[0]) for u, v in zip(pts, pts[1:])):
                return what + 'detour %s' % pts
    return None


def query_tour(c, about, sizes, mistakes, few, exe=None):
    """sizes: (kind, width, height)...; few: how many destinations of a point are asked for (None: all)"""
    bs = []
    for kind, x, y in sizes:
        bs += tour(c, 'Query, %s, %d x %d' % (kind, x, y), 'Query', {'NX': x, 'NY': y, 'Kind': '"%s"' % kind}, view=None, workers=os.cpu_count())
    for m in mistakes:
        base = {'Kind': '"three"', 'NX': 3, 'NY': 3} if m == 'land' else {'Kind': '"four"', 'NX': 2, 'NY': 2}
        c.model('Query, mistake: ' + m, 'Query', tlc.cfg_text(invariants=['Refines'], constants=dict(
            base, Tell='FALSE', Variant='"%s"' % m)), expect='Refines')
    c.model('Query ends', 'Query', tlc.cfg_text(spec='Spec', properties=['Ends'], constants={
        'Kind': '"three"', 'NX': 2, 'NY': 2, 'Tell': 'FALSE', 'Variant': '"ok"'}))
    bs.sort(key=json.dumps)
    r = rng(c.prop, 'Query')
    ws = {}
    for b in bs:
        w = ws.setdefault(json.dumps(b['polys']), {'polys': b['polys'], 'from': [], 'about': about})
        ask = sorted(b['ask'], key=json.dumps)
        w['from'].append({'s': b['s'], 'cut': b['cut'], 'ask': r.sample(ask, few) if few else ask})
    for w in ws.values():
        w['o'] = w['polys'][0][0]
        w['frame'] = dict(place(w, r), half=0)
        w['w'] = 1.0 if 'length' in about else r.choice([1.0, 1.0, 0.5, 2.0])
    replay(c, 'Query', exe or build('driver'), play_query, list(ws.values()), size=max(2, len(ws) // 64))
    c.counts['replayed_queries'] = sum(len(q['ask']) for w in ws.values() for q in w['from'])


# -- points moved to the shore ----------------------------------------------------
def off_side(q, u, v):
    n = math.dist(u, v)
    t = max(0, min(1, ((q[0] - u[0]) * (v[0] - u[0]) + (q[1] - u[1]) * (v[1] - u[1])) / n ** 2))
    return math.dist(q, (u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1])))


def play_shore(b, a=None):
    """Every pair of points of which one at least is on land, with correction and sometimes without"""
    S, ox, oy = b['frame']
    at = lambda p: (ox + S * p[0], oy + S * p[1])
    if a is None:
        return ['polys p ' + '%d %s' % (len(b['polys']), ' '.join(_list([at(p) for p in P]) for P in b['polys'])), 'gen g p', 'comp c g'] + [
            'path c %d %d %d %d inf %d 1.0' % (at(x['p']) + at(y['p']) + (corr,)) for x, y, corr in b['ask']]
    for x in a[:3]:
        if x['thrown']:
            return 'error ' + x['thrown']
    corners = {at(p) for P in b['polys'] for p in P}

    def there(q, x):
        if not x['land']:
            return tuple(q) == at(x['p'])
        if S < 1000000:
            return any(all(abs((q[k] - (ox, oy)[k]) * f[2] - S * f[k]) <= 2 * f[2] for k in (0, 1)) for f in x['to'])
        # large lands: the sphere does not measure quite like the map
        f = x['to'][0]
        best = math.dist(at(x['p']), (ox + S * f[0] / f[2], oy + S * f[1] / f[2]))
        return math.dist(q, at(x['p'])) <= best + .1 * S and any(
            off_side(q, at(u), at(v)) <= .1 * S for P in b['polys'] for u, v in zip(P, P[1:] + P[:1]))
    for (x, y, corr), z in zip(b['ask'], a[3:]):
        what = 'from %s to %s%s: ' % (x['p'], y['p'], ' with correction' if corr else '')
        if not corr:
            if z['ok'] or not z['err']:
                return what + 'answered, though on land'
            continue
        if not z['ok']:
            if len(b['polys']) == 1 and len(b['polys'][0]) == 3:  # every corner is in sight of the others
                return what + 'no route: ' + (z['thrown'] or z['err'])
            continue
        p = z['path']
        if not there(p[0], x) or not there(p[-1], y):
            return what + 'route %s' % p
        if any(tuple(q) not in corners for q in p[1:-1]):
            return what + 'route %s over strange points' % p
    return None


def shore_tour(c):
    from core import scale
    bs = []
    for kind, x, y in scale([('three', 4, 4), ('four', 4, 4), ('two', 4, 3)], [('three', 5, 5), ('four', 5, 4), ('two', 4, 4), ('two', 5, 3)]):
        bs += tour(c, 'Shore, %s, %d x %d' % (kind, x, y), 'Shore', {'NX': x, 'NY': y, 'Kind': '"%s"' % kind}, view=None, workers=os.cpu_count())
    for m in ('line', 'corner', 'first', 'last', 'sea'):
        base = {'NX': 4, 'NY': 3, 'Kind': '"two"' if m == 'first' else '"four"', 'Tell': 'FALSE'}
        c.model('Shore, mistake: ' + m, 'Shore', tlc.cfg_text(invariants=['Refines'], constants=dict(base, Variant='"%s"' % m)), expect='Refines')
    c.model('Shore ends', 'Shore', tlc.cfg_text(spec='Spec', properties=['Ends'], constants={
        'NX': 4, 'NY': 4, 'Kind': '"three"', 'Tell': 'FALSE', 'Variant': '"ok"'}))
    bs.sort(key=json.dumps)
    r = rng(c.prop, 'Shore')
    todo = []
    for b in bs:
        land = [x for x in b['moved'] if x['land']]
        if not land:
            continue
        S = r.choice([100, 1000, 10007, 30000, 2500000, 10000000])
        # anywhere along the circle, and with a shore along the antimeridian, on either side of it
        ox = r.choice([r.randint(-200000, 100000), 180000000 - S * max(x['p'][0] for x in b['moved']), -180000000])
        b['frame'] = (S, ox, r.randint(-200000, 100000) if S < 1000000 else -3 * S // 2)
        pairs = [(x, y) for x in land for y in b['moved']] + [(y, x) for x in land for y in b['moved'] if not y['land']]
        r.shuffle(pairs)
        b['ask'] = [(x, y, 1) for x, y in pairs[:scale(24, 200)]] + [(x, y, 0) for x, y in pairs[:3]]
        todo.append(b)
    replay(c, 'Shore', build('driver'), play_shore, todo, size=100)


# -- histories of queries -----------------------------------------------------------
def play_history(b, a=None):
    """Histories one after the other, in one process and by the same two computers of the same graph"""
    f = b['frame']
    at = lambda p: '%d %d' % _mu(f, p)
    rad = lambda q: 'inf' if q[2] < 0 else repr(q[2] * f['S'] * 1e-9)
    steps = [(o, w) for h in b['parts'] for o, w in zip(h['h'], h['out'])]
    if a is None:
        cmds = [_land(f, b['polys']), 'gen g p', 'comp c1 g', 'comp c2 g', 'state g']
        for o, _ in steps:
            q = o['ask'][0]
            if o['batch']:
                cmds += ['threads %d' % b['threads'], 'batch c%d %s 0 1.0 %d %s' % (
                    o['comp'], rad(q), len(o['ask']), ' '.join(at(x) + ' ' + at(y) for x, y, _ in o['ask']))]
            else:
                cmds.append('path c%d %s %s %s 0 1.0' % (o['comp'], at(q[0]), at(q[1]), rad(q)))
        return cmds + ['state g']
    for x in a[:5]:
        if x['thrown']:
            return 'error ' + x['thrown']
    if a[4] != a[-1]:
        return 'the graph changed'
    rest = iter(a[5:-1])
    corners = {_mu(f, p) for P in b['polys'] for p in P}
    for i, (o, want) in enumerate(steps):
        x = next(rest)
        if o['batch']:
            x = next(rest)
        if x['thrown']:
            return 'error ' + x['thrown']
        got = x['results'] if o['batch'] else [x]
        if len(got) != len(want):
            return 'step %d: %d answers' % (i, len(got))
        for q, y, w in zip(o['ask'], got, want):
            what = 'step %d, from %s to %s, radius %s: ' % (i, q[0], q[1], q[2])
            if y['ok'] != (w >= 0):
                return what + '%s, not %d' % (y, w)
            if w >= 0:
                ps = [tuple(p) for p in y['path']]
                if ps[0] != _mu(f, q[0]) or ps[-1] != _mu(f, q[1]) or any(p not in corners for p in ps[1:-1]):
                    return what + 'route %s' % ps
                length = sum((((u[0] - v[0] + TURN // 2) % TURN - TURN // 2) ** 2 + (u[1] - v[1]) ** 2) ** .5 for u, v in zip(ps, ps[1:]))
                if abs(length / f['S'] * 1000 - w) > len(ps) + 1:
                    return what + 'a route of %f, not %d' % (length / f['S'] * 1000, w)
    return None


def history_tour(c, only='', exe=None):
    from core import scale
    base = {'Lands': '<- TwoLands', 'Small': 3300, 'MaxAsked': 2}
    runs = [('all of two', dict(base, Ports='<- FourPorts', Batches=scale('FALSE', 'TRUE')), 'Next', ()),
            ('single, more ports', dict(base, Ports='<- SomePorts', MaxAsked=1, Batches='FALSE'), 'Next', ()),
            ('long', dict(base, Ports='<- SomePorts', MaxAsked=scale(60, 150), Batches='TRUE'), 'Long',
             ('-simulate', 'num=%d' % scale(2, 8), '-depth', '200', '-seed', str(rng(c.prop, 'long').randint(1, 10 ** 9))))]
    bs = []
    for name, cs, nxt, args in runs:
        if not name.startswith(only):
            continue
        res = c.model('History, ' + name, 'History', tlc.cfg_text(invariants=['Refines', 'Told'], next=nxt, constants=dict(
            cs, Variant='"ok"', Tell='TRUE')), args=args)
        part = [json.loads(json.loads('"%s"' % l)[1:]) for l in res.printed]
        c.counts.setdefault('generated_behaviours', {})['History, ' + name] = len(part)
        bs += part
    for m in ('base', 'memo', 'tree', 'radius') if not only else ('memo',):
        c.model('History, mistake: ' + m, 'History', tlc.cfg_text(invariants=['Refines'], constants=dict(
            base, Ports='<- FourPorts', Batches='FALSE', Variant='"%s"' % m, Tell='FALSE')), expect='Refines')
    bs.sort(key=json.dumps)
    r = rng(c.prop, 'History')
    r.shuffle(bs)
    ws = {}
    for b in bs:
        ws.setdefault(json.dumps(b['polys']), []).append(b)
    todo = []
    for k in sorted(ws):
        n = max(1, len(ws[k]) // 12)
        for i in range(0, len(ws[k]), n):
            f = dict(place({'polys': json.loads(k), 'o': [0, 3]}, r), half=0)
            f['S'] = max(f['S'], 40000)
            if f['cut'] is not None:
                rim(f, f['cut'], r)
            todo.append({'polys': json.loads(k), 'parts': ws[k][i:i + n], 'frame': f, 'threads': r.choice([1, 2, 3, 8])})
    replay(c, 'History', exe or build('driver'), play_history, todo, size=2)
    c.counts['replayed_histories'] = len(bs)


# -- the Python module ---------------------------------------------------------------
MODULE_AT = {1: (0, -40000000), 2: (1000000, -40000000), 3: (1000000, 40000000), 4: (0, 40000000),
             5: (150000000, -89000000), 6: (151000000, -89000000), 7: (151000000, 89000000), 8: (150000000, 89000000)}


def play_module(b, a=None):
    """A history of the module's graphs; the files of what there is in the end are read by the C++ driver"""
    at = lambda v: '%d %d' % MODULE_AT[v]
    if a is None:
        cmds = ['polys p 2 4 %s 4 %s' % (' '.join(map(at, (1, 2, 3, 4))), ' '.join(map(at, (5, 6, 7, 8)))), 'forget x', 'forget y']
        for o in b['h']:
            if o[0] == 'new':
                cmds.append('graph %s p' % o[1])
            elif o[0] == 'add':
                cmds.append('addedge %s %s %s %d' % (o[1], at(o[2]), at(o[3]), o[4] - 1))
            elif o[0] in ('save', 'load'):
                cmds.append('%s %s %s' % (o[0], o[1], b['path']))
            elif o[0] == 'merge':
                cmds.append('merge %s 2 %s %s' % tuple(o[1:]))
            elif o[0] == 'comp':
                cmds.append('comp c ' + o[1])
            else:
                cmds.append(' '.join(o))
        for n in sorted(b['see']['graphs']):
            cmds += ['dump ' + n, 'save %s %s.%s' % (n, b['path'], n)]
        if b['see']['same']:
            cmds += ['eq x y', 'text x', 'text y']
        if b['see']['passes']:
            cmds.append('path c -10000000 0 11000000 1000 inf 0 1.0')
        return cmds
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    rest = iter(a[3 + len(b['h']):])
    num = {c: v for v, c in MODULE_AT.items()}
    for n in sorted(b['see']['graphs']):
        x, es = next(rest), b['see']['graphs'][n]
        next(rest)
        vs = [num[tuple(v)] for v in x['verts']]
        if sorted(vs) != list(range(1, 9)) or x['all'] != 8:
            return 'vertices %s' % x['verts']
        if sorted([vs[i], vs[j]] for i, j, _ in x['edges']) != sorted(e[:2] for e in es):
            return 'graph %s: edges %s, not %s' % (n, x['edges'], es)
        if [sorted(num[tuple(w)] for w in nb) for nb in x['nb']] != [sorted(e[1] for e in es if e[0] == v) for v in vs]:
            return 'graph %s: neighbours %s' % (n, x['nb'])
        if sorted([tuple(c) for c in P] for P in x['polys']) != [[MODULE_AT[v] for v in P] for P in ((1, 2, 3, 4), (5, 6, 7, 8))]:
            return 'graph %s: polygons %s' % (n, x['polys'])
    if b['see']['same']:
        x, t, u = next(rest), next(rest), next(rest)
        if x['eq'] != int(b['see']['same'][0]) or x['ne'] == x['eq'] or (t['t'] == u['t']) != b['see']['same'][0]:
            return 'x == y: %s, not %s' % (x, b['see']['same'][0])
    if b['see']['passes']:
        x = next(rest)
        if x['ok'] != b['see']['passes'][0]:
            return 'the computer answers %s' % x
    return None


def play_module_file(b, a=None):
    """What the C++ driver reads from the files, with flags"""
    if a is None:
        return [x for n in sorted(b['see']['graphs']) for x in ('load %s %s.%s' % (n, b['path'], n), 'dump ' + n)]
    for n, x in zip(sorted(b['see']['graphs']), a[1::2]):
        if x['thrown']:
            return 'error ' + x['thrown']
        num = {c: v for v, c in MODULE_AT.items()}
        vs = [num[tuple(v)] for v in x['verts']]
        if sorted([vs[i], vs[j], l] for i, j, l in x['edges']) != sorted(b['see']['graphs'][n]):
            return 'the file of %s has the edges %s, not %s' % (n, x['edges'], b['see']['graphs'][n])
    return None


def play_coord(b, a=None):
    if a is None:
        cmds = ['coord a %d %d' % tuple(b['start'][0]), 'coord b %d %d' % tuple(b['start'][1])]
        for r, o, x, y in b['h']:
            cmds.append('arith %s %s %s %s' % (r, o, x, repr(y[0] / y[1]) if o in ('mul', 'div') else y))
        return cmds + ['measure a b', 'measure b a']
    for x in a:
        if x['thrown']:
            return 'error ' + x['thrown']
    for x, (p, q), turn in ((a[-2], 'ab', 1), (a[-1], 'ba', -1)):
        if x['a'] != b[p] or x['b'] != b[q]:
            return '%s and %s, not %s and %s' % (x['a'], x['b'], b[p], b[q])
        same = int(b[p] == b[q])
        if x['eq'] != same or x['ne'] == same or (x['ta'] == x['tb']) != bool(same):
            return '%s and %s: == gives %s' % (b[p], b[q], x)
        if b['measured']:
            wants = [('dot', b['dot']), ('cross', turn * b['cross']), ('sq', b['sq'] if turn == 1 else None),
                     ('mag', 1e6 * b['sq'] ** .5 if turn == 1 else None)]
            for k, w in wants:
                if w is not None and abs(x[k] * 1e12 - w) > 1e-6 * (1 + abs(w)):
                    return '%s of %s and %s: %r' % (k, b[p], b[q], x[k])
    return None


def play_values(b, drv, d):
    at = lambda k: [[0.0, 0.0], [0.0, 0.000001], [-7.5, 3.25]][k - 1]
    if b['kind'] == 'number':
        for lat, lon in ((b['n'] / 4, 0.0), (0.0, b['n'] / 4), (b['n'] / 4, b['n'] / 4)):
            a = drv.py.call('wrap', lat=lat, lon=lon)
            if a['thrown']:
                return 'error ' + a['thrown']
            for x, w, half in ((a['c'][0], b['lon'] / 4 if lon else 0, 180), (a['c'][1], b['lat'] / 4 if lat else 0, 90)):
                if x != w and not (abs(w) == half and abs(x) == half):  # either end of the range
                    return '%r degrees become %r, not %r' % (b['n'] / 4, x, w)
            if not a['same']:
                return 'equal coordinates differ'
        return None
    a = drv.py.call('ring', s=[at(k) for k in b['s']], others=[[at(k) for k in t] for t in b['others']])
    if a['thrown']:
        return 'error ' + a['thrown']
    if a['ok'] != b['ok']:
        return 'a polygon of %d vertices: %s' % (len(b['s']), a['ok'])
    if a['ok']:
        same = [t in b['same'] for t in b['others']]
        if a['vertices'] != [at(k) for k in b['s']]:
            return 'the vertices %s' % a['vertices']
        if a['eq'] != same or a['turned'] != same or a['ne'] != [not x for x in same] or a['strange']:
            return 'equality %s, not %s' % (a, same)
    return None


def values_tour(c, exe, pkg, so):
    from core import scale
    base = {'Turns': 3, 'Step': scale(45, 15), 'Points': '{1, 2, 3}', 'MaxLen': 4}
    bs = tour(c, 'Values', 'Values', base, view=None, mistakes={k: 'Refines' for k in ('cut', 'once', 'two', 'set')})
    rings = sorted(b['s'] for b in bs if b['kind'] == 'ring' and b['ok'])
    r = rng(c.prop, 'values')
    bs.sort(key=json.dumps)
    for b in bs:
        if b['kind'] == 'ring':
            b['others'] = r.sample(rings, 12) + [t for t in rings if t in b['same'] or sorted(t) == sorted(b['s'])]
    replay_live(c, 'Values', exe, pkg, so, play_values, bs)


def module_tour(c, so, scratch):
    """Through the Python module: its graphs and coordinates, and the behaviours that the C++ library is given elsewhere"""
    import facade
    from core import scale
    exe = [facade.PYPY, os.path.join(VERIF, 'harness', 'pycore.py'), so]
    r = rng(c.prop, 'module')
    # graphs
    cs = {'Pairs': scale('<- PairsTwo', '<- PairsThree'), 'MaxOps': 5, 'MaxHeap': 4}
    bs = tour(c, 'Module', 'Module', cs, mistakes={k: 'Refines' for k in ('alias', 'lazy', 'freed', 'flag')}, workers=os.cpu_count(),
              cap=scale(5000, None), seed=r.random())
    bs.sort(key=json.dumps)
    for i, b in enumerate(bs):
        b['path'] = os.path.join(scratch, str(i))
    replay(c, 'Module', exe, play_module, bs)
    replay(c, 'Module (files)', build('driver'), play_module_file, bs)
    # coordinates
    for places, factors, ops, tell in (('Small', 'Some', 2, 'TRUE'), ('Large', 'Few', 2, 'FALSE')) + scale((), (('Small', 'Few', 3, 'TRUE'),)):
        name = 'Coord, %s, %d operations' % (places.lower(), ops)
        bs = tour(c, name, 'Coord', {'Places': '<- Places' + places, 'Factors': '<- Factors' + factors, 'MaxOps': ops, 'Measure': tell},
                  mistakes={k: 'Refines' for k in ('down', 'even', 'turned', 'half')} if ops == 2 else None, workers=os.cpu_count(),
                  cap=70000, seed=r.random())
        bs.sort(key=json.dumps)
        for b in bs:
            b['measured'] = tell == 'TRUE'
        replay(c, name, exe, play_coord, bs)
    # what the core library is asked elsewhere
    sweep(c, [('visible', play_visible), ('graphs', play_generated), ('disguised', play_disguised), ('sharded', play_sharded)],
          scale([('three', 3, 3), ('two', 3, 3)], [('three', 4, 4), ('four', 3, 3), ('two', 4, 3)]), mistakes=[], exe=exe)
    query_tour(c, ['land', 'length', 'route'], scale([('four', 3, 3)], [('three', 4, 4), ('four', 4, 3), ('two', 3, 3)]), [], 4, exe=exe)
    history_tour(c, 'long', exe=exe)
    batch_tour(c, exe=exe)


# -- shapefiles ----------------------------------------------------------------
def _live(job):
    exe, pkg, so, play, part = job
    import facade, shutil, tempfile
    env = {'OMP_NUM_THREADS': '2', 'OMP_WAIT_POLICY': 'passive'}
    b = facade.Both(Drv(exe, env, 120), facade.PyDrv(pkg, so, env=env))
    bad = None
    try:
        for x in part:
            d = tempfile.mkdtemp(prefix='capi.')
            try:
                w = play(x, b, d)
            finally:
                shutil.rmtree(d, ignore_errors=True)
            if w:
                bad = {'complaint': w, 'behaviour': x, 'commands': b.log[-40:]}
                break
            del b.cpp.log[:], b.py.log[:]
    except (KeyError, IndexError, TypeError, ValueError) as e:
        if not b.failed:
            raise
        bad = {'complaint': 'a call failed that must not: ' + b.failed, 'detail': repr(e), 'commands': b.log[-60:]}
    except DriverDied as e:
        bad = {'complaint': 'the library crashed or hung', 'detail': str(e), 'commands': b.log[-60:]}
    b.close()
    return bad


def replay_live(c, name, exe, pkg, so, play, behaviours, size=200):
    """play(behaviour, drivers, scratch folder) plays it through the Python interface and says what is wrong (or None)"""
    jobs = [(exe, pkg, so, play, behaviours[i:i + size]) for i in range(0, len(behaviours), size)]
    with ProcessPoolExecutor(max_workers=os.cpu_count()) as ex:
        first = next((bad for bad in ex.map(_live, jobs) if bad), None)
        ex.shutdown(wait=True, cancel_futures=True)
    if first:
        first['scenario'] = 'generated from ' + name
        c.violation(first)
    c.traces += len(behaviours)
    c.counts.setdefault('replayed_behaviours', {})[name] = len(behaviours)


RING = {'one': [1, 1], 'two': [1, 2, 1], 'three': [1, 2, 3, 1], 'four': [1, 2, 3, 4, 1], 'twice': [1, 2, 2, 3, 1],
        'back': [1, 2, 3, 1, 4, 5, 1]}
CORNER = [None, (0, 0), (.25, 0.125), (.125, .5), (-.25, .25), (-.125, -.0625)]


def play_shapefile(b, drv, d):
    import facade
    kinds = {'null': facade.NULL, 'point': facade.POINT, 'polyline': facade.POLYLINE, 'multipoint': facade.MULTIPOINT,
             'polygonz': facade.POLYGONZ, 'polygonm': facade.POLYGONM, 'polygon': facade.POLYGON}

    def put(r, k, i):
        return (-160 + 40 * r + 3 * k + CORNER[i][0], 60 - 20 * r + k + CORNER[i][1])
    recs = []
    for r, rec in enumerate(b['file'], 1):
        parts = [[put(r, k, i) for i in RING[ring]] for k, ring in enumerate(rec['rings'], 1)]
        if rec['kind'] == 'null':
            parts = []
        if rec['kind'] == 'point':
            parts = [parts[0][:1]]
        recs.append((kinds[rec['kind']], parts))
    path = os.path.join(d, 'f')
    facade.write_shp(path, recs)
    a = drv.py.call('read', shp=path + '.shp')
    if a['thrown']:
        return 'error ' + a['thrown']
    want = [[list(put(*p)) for p in ring] for ring in b['out']]
    if a['polys'] != want:
        return 'read %s, not %s' % (a['polys'], want)
    return None


def reader_tour(c, exe, pkg, so):
    from core import scale
    kinds = '{"null", "point", "polyline", "multipoint", "polygonz", "polygonm"}'
    bs = []
    sizes = scale([('{"two", "three", "four", "back"}', 2, 2), ('{"one", "two", "three", "twice", "back"}', 1, 3), ('{"two", "three"}', 3, 1)],
                  [('{"one", "two", "three", "four", "twice", "back"}', 2, 2), ('{"two", "three", "back"}', 2, 3), ('{"two", "three"}', 3, 2),
                   ('{"one", "two", "three", "four", "twice", "back"}', 1, 4), ('{"two", "three"}', 4, 1)])
    for rings, n, k in sizes:
        bs += tour(c, 'Reader, %d records of %d rings' % (n, k), 'Reader',
                   {'Kinds': kinds, 'Rings': rings, 'MaxRecords': n, 'MaxRings': k}, view=None, workers=os.cpu_count())
    few = {'Kinds': '{"null", "polygonz"}', 'Rings': '{"two", "three", "four", "back"}', 'MaxRecords': 2, 'MaxRings': 2, 'Tell': 'FALSE'}
    for m in ('all parts', 'each part', 'closing', 'two', 'four', 'kind', 'stop', 'carry', 'repeat', 'next part'):
        c.model('Reader, mistake: ' + m, 'Reader', tlc.cfg_text(invariants=['Refines'], constants=dict(few, Variant='"%s"' % m)),
                expect='Refines')
    c.model('Reader ends', 'Reader', tlc.cfg_text(spec='Spec', properties=['Ends'], constants=dict(few, MaxRings=1, Variant='"ok"')))
    bs.sort(key=json.dumps)
    replay_live(c, 'Reader', exe, pkg, so, play_shapefile, bs)


# -- folders -------------------------------------------------------------------
def play_folders(b, drv, d):
    import facade, shutil
    py, cpp = drv.py, drv.cpp
    rings = b['rings']
    path = lambda x: os.path.join(d, x)
    facade.write_shp(path('land'), [(facade.POLYGON, [[(facade.deg(x), facade.deg(y)) for x, y in R + R[:1]]]) for R in rings])
    os.mkdir(path('empty'))
    os.mkdir(path('full'))
    for f in ('full/default', 'plain'):
        with open(path(f), 'wb') as h:
            h.write(b'precious')
    names = sorted({o['out'] for o in b['ops']} | {'empty', 'full', 'plain'})

    def trees():
        return dict(zip(names, py.call('tree', paths=[path(n) for n in names])['tree']))
    for i, o in enumerate(b['ops']):
        before = trees()
        if o['op'] == 'generate':
            a = py.call('generate', shp=path('land'), out=path(o['out']))
        elif o['op'] == 'range':
            a = py.call('range', shp=path('land'), out=path(o['out']), k=o['k'], n=o['n'], seed=b['seed'])
        else:
            a = py.call('merge', ins=[path(x) for x in o['ins']], out=path(o['out']))
        after = trees()
        for x in names:
            if after[x] != before[x] and (x != o['out'] or before[x]):
                return '%s changed in step %d, %s' % (x, i + 1, o)
        if before[o['out']] and not a['thrown']:
            return 'step %d, %s, goes through, though there is something already' % (i + 1, o)
        if not before[o['out']] and a['thrown']:
            return 'step %d, %s: error %s' % (i + 1, o, a['thrown'])

    def edges(g):
        s = cpp('dump', g)
        return {(tuple(s['verts'][i]), tuple(s['verts'][j]), x) for i, j, x in s['edges']}, {tuple(v) for v in s['verts']}
    cpp('polys p ' + '%d %s' % (len(rings), ' '.join(_ring(R) for R in rings)))
    cpp('gen whole p')
    whole = edges('whole')
    pairs = {(x, y) for x, y, _ in whole[0]}
    got = {}
    for f in sorted(b['fs']):
        a = cpp('load', f, py.call('file', folder=path(f))['file'])
        if a['thrown']:
            return '%s holds no graph: %s' % (f, a['thrown'])
        got[f] = edges(f)
        if got[f][1] != whole[1]:
            return '%s has the vertices %s' % (f, sorted(got[f][1]))
        if not {(x, y) for x, y, _ in got[f][0]} <= pairs:
            return '%s has edges that the whole graph has not' % f
        asked = {tuple(x) for x in b['fs'][f]['asked']}
        if any(all((k, n) in asked for k in range(n)) for _, n in asked) and got[f] != whole:
            return '%s was asked to hold all, %s, but lacks %s' % (f, sorted(asked), sorted(whole[0] ^ got[f][0])[:4])
    o = b['ops'][-1]
    if o['op'] == 'merge' and b['makes']:
        cpp('merge', 'm', len(o['ins']), *o['ins'])
        if edges('m') != got[o['out']]:
            return 'merged folder differs from the merged graphs'
    if b['makes']:
        # the folder answers as the graph of the core does
        cpp('comp', 'c', o['out'])
        a = py.call('interpolator', id='i', graph=path(o['out']))
        if a['thrown']:
            return 'error ' + a['thrown']
        (s, t) = b['ask']
        x = cpp('path', 'c', '%d %d' % tuple(s), '%d %d' % tuple(t), 'inf', 0, '1.0')
        y = py.call('interpolate', id='i', s=[facade.deg(v) for v in s], d=[facade.deg(v) for v in t])
        if bool(y['thrown']) == bool(x['ok']):
            return 'asked: %s, but the core says %s' % (y['thrown'] or 'a path', 'a path' if x['ok'] else 'none')
        if x['ok'] and [[facade.udeg(v) for v in p] for p in y['path']] != [list(p) for p in x['path']]:
            return 'asked: %s, but the core says %s' % (y['path'], x['path'])
    return None


def folder_tour(c, exe, pkg, so):
    from core import scale
    base = {'NV': 7, 'Splits': '{1, 2, 3, 9}', 'MaxOps': 3}
    bs = tour(c, 'Folders', 'Folders', base)
    if scale(0, 1):
        bs += tour(c, 'Folders, longer', 'Folders', {'NV': 7, 'Splits': '{2, 3}', 'MaxOps': 4})
    for m in ('exists', 'empty', 'remainder', 'mixed', 'first', 'into', 'from one'):
        c.model('Folders, mistake: ' + m, 'Folders', tlc.cfg_text(invariants=['Refines'], view='View', constants=dict(
            base, Splits='{2, 3, 4}', Variant='"%s"' % m, Tell='FALSE')), expect='Refines')
    bs.sort(key=json.dumps)
    # behaviours that end where others go on are played with them
    begun = {json.dumps(b['ops'][:-1]) for b in bs}
    todo = [b for b in bs if json.dumps(b['ops']) not in begun]
    r = rng(c.prop, 'folders')
    r.shuffle(todo)
    todo = todo[:scale(1600, len(todo))]
    for b in todo:
        x, y, s = r.choice([-179500000, 179300000, -300000, r.randint(-17 * 10 ** 7, 17 * 10 ** 7)]), r.randint(-600, 600) * 10 ** 5, 10 ** 5
        P = [[(0, 0), (3, 0), (3, 2)], [(4, 4), (6, 4), (6, 6), (4, 7)]]
        b['rings'] = [[(_norm(x + s * u), y + s * v) for u, v in R] for R in P]
        b['ask'] = [(_norm(x + s * u), y + s * v) for u, v in (r.choice([(-1, 1), (2, 5), (4, 1)]), r.choice([(8, 8), (5, 2), (3, 8), (3, 0)]))]
        b['seed'] = r.choice([0, 1, 42, 2 ** 31 - 1])
    replay_live(c, 'Folders', exe, pkg, so, play_folders, todo, size=60)


def _norm(x):
    return (x + 180000000) % TURN - 180000000
