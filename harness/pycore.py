"""Runs under PyPy with a freshly built _vis_graph module: the commands of driver.cpp that the module offers, executed
through its classes and functions.  It judges nothing."""
import gc, importlib.util, json, os, sys

sys.dont_write_bytecode = True
out = os.fdopen(os.dup(1), 'w')
os.dup2(os.open('/dev/null', os.O_WRONLY), 1)
NAME = '_vis_graph'
spec = importlib.util.spec_from_file_location(NAME, sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)

polys, graphs, comps, regs, trees = {}, {}, {}, {}, {}


def deg(k):
    return (k + (.3 if k >= 0 else -.3)) * 1e-6


def C(x, y):
    return m.VisGraphCoord(deg(int(x)), deg(int(y)))


def js(c):
    return [int(round(c.longitude * 1e6)), int(round(c.latitude * 1e6))]


def pairs(t):
    return [C(x, y) for x, y in zip(t[::2], t[1::2])]


def rest(k, mx, corr, w, named):
    """The arguments of a query: given by name or by place, those that have their usual value perhaps left out"""
    mx, corr, w = float(mx), corr == '1', float(w)
    kw = {}
    if named % 2 or mx != float('inf'):
        kw['maximum_distance_to_search_from_source'] = mx
    if named % 3 or corr:
        kw['correct_vertices_on_land'] = corr
    if named % 5 or w != 1.0:
        kw['a_star_greediness_weighting'] = w
    if named % 7 == 0:
        return (mx, corr, w), {}
    return (), kw


calls = 0


def graph_state(g):
    vs = g.vertices
    d = []
    seen = {}
    for v in vs:
        k = tuple(js(v))
        if k not in seen:
            seen[k] = len(d)
            d.append(v)
    return vs, d


def run(op, t):
    global calls
    calls += 1
    if op == 'polys':
        ps, i = [], 2
        for _ in range(int(t[1])):
            n = int(t[i])
            ps.append(m.VisGraphPolygon(pairs(t[i + 1:i + 1 + 2 * n])))
            i += 1 + 2 * n
        polys[t[0]] = ps
        trees.pop(t[0], None)
        return {'polys': [[js(c) for c in p.vertices] for p in ps]}
    if op == 'graph':
        graphs[t[0]] = m.VisGraph(polys[t[1]])
        return {}
    if op == 'gen':
        graphs[t[0]] = m.generate_visgraph(polys[t[1]])
        return {}
    if op == 'genrange':
        graphs[t[0]] = m.generate_visgraph_with_shuffled_range(polys[t[1]], int(t[2]), int(t[3]), int(t[4]))
        return {}
    if op == 'addedge':
        a, b = pairs(t[1:5])
        graphs[t[0]].add_edge(a, b, t[5] == '1')
        return {}
    if op == 'edge':
        a, b = pairs(t[1:5])
        return {'v': int(graphs[t[0]].has_edge(a, b))}
    if op == 'nbrs':
        return {'nb': [js(c) for c in graphs[t[0]].get_neighbors(C(t[1], t[2]))]}
    if op == 'hasvert':
        return {'v': int(graphs[t[0]].has_vertex(C(t[1], t[2])))}
    if op in ('dump', 'state'):
        g = graphs[t[0]]
        vs, d = graph_state(g)
        e = [[int(g.has_edge(x, y)) for y in d] for x in d]
        return {'all': len(vs) if op == 'dump' else [js(c) for c in vs], 'verts': [js(c) for c in d], 'm': e,
                'edges': [[i, j, 1] for i, row in enumerate(e) for j, x in enumerate(row) if x],
                'nb': [[js(c) for c in g.get_neighbors(x)] for x in d],
                'polys': [[js(c) for c in p.vertices] for p in g.polygons]}
    if op == 'text':
        return {'t': repr(graphs[t[0]]).replace('\n', ' ')}
    if op == 'eq':
        a, b = graphs[t[0]], graphs[t[1]]
        return {'eq': int(a == b), 'ne': int(a != b)}
    if op == 'polyeq':
        a, b = polys[t[0]][0], polys[t[1]][0]
        return {'eq': int(a == b), 'ne': int(a != b), 'same': int(repr(a) == repr(b))}
    if op == 'merge':
        graphs[t[0]] = m.merge_graphs([graphs[x] for x in t[2:]])
        return {}
    if op == 'alias':
        graphs[t[0]] = graphs[t[1]]
        return {}
    if op == 'forget':
        graphs.pop(t[0], None)
        return {}
    if op == 'drop':
        graphs.pop(t[0], None)
        gc.collect()
        return {}
    if op == 'save':
        m.save_graph_to_file(graphs[t[0]], t[1])
        return {}
    if op == 'load':
        graphs[t[0]] = m.load_graph_from_file(t[1])
        return {}
    if op == 'comp':
        comps[t[0]] = m.VisGraphShortestPathComputer(graphs[t[1]])
        return {}
    if op == 'path':
        s, d = pairs(t[1:5])
        a, kw = rest(1, t[5], t[6], t[7], calls)
        try:
            if calls % 11 == 0 and not a:
                p = comps[t[0]].shortest_path(source=s, destination=d, **kw)
            else:
                p = comps[t[0]].shortest_path(s, d, *a, **kw)
        except Exception as e:
            return {'ok': False, 'path': [], 'err': str(e) or type(e).__name__}
        return {'ok': p is not None, 'path': [js(c) for c in p or []], 'err': ''}
    if op == 'batch':
        ps = pairs(t[5:])
        a, kw = rest(1, t[1], t[2], t[3], calls)
        qs = list(zip(ps[::2], ps[1::2]))
        if calls % 11 == 0 and not a:
            r = comps[t[0]].shortest_paths(source_dest_pairs=qs, **kw)
        else:
            r = comps[t[0]].shortest_paths(qs, *a, **kw)
        return {'results': [{'ok': x.path is not None, 'path': [js(c) for c in x.path or []], 'err': x.error_msg or '',
                             'haserr': int(x.error_msg is not None)} for x in r]}
    if op == 'visible':
        if t[0] not in trees:
            trees[t[0]] = m.VistreeGenerator(polys[t[0]])
        v = trees[t[0]].get_visible_vertices(C(t[3], t[4]), t[2] == '1')
        return {'vis': [js(x.coord) + [int(x.is_visible_across_meridian)] for x in v]}
    if op == 'threads':
        return {}
    if op == 'coord':
        regs[t[0]] = C(t[1], t[2])
        return {}
    if op == 'arith':
        r, o, x, y = t
        a = regs[x]
        if o == 'add':
            regs[r] = a + regs[y]
        elif o == 'sub':
            regs[r] = a - regs[y]
        elif o == 'neg':
            regs[r] = -a
        elif o == 'mul':
            regs[r] = a * float(y)
        elif o == 'div':
            regs[r] = a / float(y)
        return {}
    if op == 'measure':
        a, b = regs[t[0]], regs[t[1]]
        return {'a': js(a), 'b': js(b), 'eq': int(a == b), 'ne': int(a != b), 'dot': a.dot_product(b),
                'cross': a.cross_product_magnitude(b), 'sq': a.magnitude_squared(), 'mag': a.magnitude(),
                'ta': repr(a), 'tb': repr(b)}
    raise SystemExit('pycore: unknown op ' + op)


for line in sys.stdin:
    t = line.split()
    if not t:
        continue
    try:
        a = run(t[0], t[1:])
        a['thrown'] = ''
    except Exception as e:
        a = {'thrown': (type(e).__name__ + ': ' + str(e))[:300]}
    out.write(json.dumps(a) + '\n')
    out.flush()
