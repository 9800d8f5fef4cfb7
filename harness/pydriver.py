"""Runs under PyPy on a copy of /repo's Python package with a freshly built module: executes the calls of CAPI's
Python interface, one JSON request per line, one JSON answer per line.  It judges nothing."""
import importlib.util, json, os, sys, warnings, hashlib

root, so = sys.argv[1], sys.argv[2]
sys.path.insert(0, root)
sys.dont_write_bytecode = True
out = os.fdopen(os.dup(1), 'w')
os.dup2(os.open('/dev/null', os.O_WRONLY), 1)

NAME = 'capi.src.implementation.visibility_graphs._vis_graph'
spec = importlib.util.spec_from_file_location(NAME, so)
mod = importlib.util.module_from_spec(spec)
spec.loader.exec_module(mod)
sys.modules[NAME] = mod
ranges = []
core_range = mod.generate_visgraph_with_shuffled_range


def spy(polygons, start, end, seed):
    ranges.append([int(start), int(end), int(seed), sum(len(p.vertices) for p in polygons)])
    return core_range(polygons, start, end, seed)


mod.generate_visgraph_with_shuffled_range = spy

from capi.src.implementation.dtos.coordinate import Coordinate
from capi.src.implementation.graph_generator import GraphGenerator
from capi.src.implementation.graph_merger import GraphMerger
from capi.src.implementation.path_interpolator import PathInterpolator
from capi.src.implementation.shapefiles.shapefile_reader import ShapefileReader

interpolators = {}


def coords(path):
    return None if path is None else [[c.longitude, c.latitude] for c in path]


def tree(path):
    """What is at a path: a digest of names, kinds and contents"""
    h = hashlib.sha256()
    if not os.path.lexists(path):
        return ''
    if os.path.isdir(path):
        for d, ds, fs in sorted(os.walk(path)):
            ds.sort()
            for x in sorted(ds):
                h.update(('D' + os.path.join(os.path.relpath(d, path), x)).encode())
            for x in sorted(fs):
                h.update(('F' + os.path.join(os.path.relpath(d, path), x)).encode())
                with open(os.path.join(d, x), 'rb') as f:
                    h.update(f.read())
        return 'dir' + h.hexdigest()
    with open(path, 'rb') as f:
        h.update(f.read())
    return 'file' + h.hexdigest()


def run(q):
    op = q['op']
    if op == 'read':
        return {'polys': [coords(p.vertices) for p in ShapefileReader().read(q['shp'])]}
    if op == 'tree':
        return {'tree': [tree(p) for p in q['paths']]}
    if op == 'wrap':
        from capi.src.implementation.dtos.coordinate import construct_coord_in_lat_lon_range
        c = construct_coord_in_lat_lon_range(latitude=q['lat'], longitude=q['lon'])
        return {'c': [c.longitude, c.latitude], 'same': c == Coordinate(longitude=c.longitude, latitude=c.latitude)}
    if op == 'ring':
        from capi.src.implementation.datastructures.polygon import Polygon
        c = lambda p: Coordinate(longitude=p[0], latitude=p[1])
        given = [c(p) for p in q['s']]
        try:
            p = Polygon(given)
        except ValueError:
            return {'ok': False}
        given.append(c([9.0, 9.0]))
        others = [Polygon(vertices=[c(x) for x in t]) for t in q['others']]
        return {'ok': True, 'vertices': coords(p.vertices), 'eq': [p == o for o in others], 'ne': [p != o for o in others],
                'turned': [o == p for o in others], 'strange': p == given}
    if op == 'file':
        from capi.src.implementation.datastructures.graph_file_paths import GraphFilePaths
        return {'file': GraphFilePaths(q['folder']).default_graph_path}
    if op == 'generate':
        GraphGenerator().generate(q['shp'], q['out'])
        return {}
    if op == 'range':
        GraphGenerator().generate_for_vertex_range(q['shp'], q['out'], q['k'], q['n'], q['seed'])
        return {}
    if op == 'merge':
        GraphMerger().merge(q['ins'], q['out'])
        return {}
    if op == 'interpolator':
        interpolators[q['id']] = PathInterpolator(q['graph'])
        return {}
    if op in ('interpolate', 'batch'):
        ip = interpolators[q['id']]
        kw = {}
        for key, name in (('mx', 'search_distance_from_source_limit'), ('corr', 'correct_vertices_on_land'),
                          ('w', 'a_star_greediness_weighting')):
            if key in q:
                kw[name] = q[key]
        c = lambda p: Coordinate(longitude=p[0], latitude=p[1])
        if op == 'interpolate':
            if q.get('positional'):
                return {'path': coords(ip.interpolate(c(q['s']), c(q['d']), *[q[k] for k in ('mx', 'corr', 'w')]))}
            return {'path': coords(ip.interpolate(c(q['s']), c(q['d']), **kw))}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            r = ip.batch_interpolate([(c(s), c(d)) for s, d in q['pairs']], **kw)
        return {'paths': [coords(p) for p in r], 'warnings': [str(w.message) for w in ws]}
    raise SystemExit('pydriver: unknown op')


for line in sys.stdin:
    q = json.loads(line)
    del ranges[:]
    try:
        a = run(q)
        a['thrown'] = ''
    except Exception as e:
        a = {'thrown': type(e).__name__ + ': ' + str(e)}
    a['ranges'] = list(ranges)
    out.write(json.dumps(a) + '\n')
    out.flush()
