"""Writes DESIGN.md from properties.jsonl, props/, known_findings.json, seeded/ and design_*.md"""
import sys, json, importlib
sys.path.insert(0,'/verif')
P={json.loads(l)['id']:json.loads(l) for l in open('/verif/properties.jsonl')}
ev={}
import os
for p in P:
    f=f'/verif/evidence/{p}.json'
    if os.path.exists(f): ev[p]=json.load(open(f))
MORE={
'C01':("lists of Python integers, sets and dicts: each operation is written again at the level of the sequence",
       "6 arrays per case of 0 to 360 tuples, both 32 and 64 bits; partitions, packed arrays and ranges are drawn so that empty packs, repeated values and reversed slices occur",
       "index arithmetic of the indexed arrays and of the slices is where the literals of the tests never go: empty groups, negative steps, offsets that do not start at 0"),
'C02':("numpy (and scipy for eigenvalues) applied to a copy of the array",
       "values spread on 12 orders of magnitude, ties, 1 to 9 components, rotations, three coordinate systems",
       "numerical degeneracies (equal eigenvalues, ties in searches, empty arrays, NaN) need values chosen for them"),
'C03':("the expression tree itself, evaluated in Python before it is written out as text with random spaces, brackets and number formats",
       "depth 5, 14 functions, conditions, unit vectors, named variables; corrupted texts must be refused without crash",
       "a parser is right or wrong on the grammar, not on examples; the generator covers the grammar"),
'C04':("sets of sets of nodes: faces and edges of each cell type from the tables of props/mesh.py, incidence computed by dictionaries",
       "five meshes a case, 1-D to 3-D, 14 linear and quadratic cell types, polygons and polyhedra, shuffled, with orphans and several zones",
       "every derived array is judged on shapes and numberings which no test contains: mixed types, polyhedra with shared faces, cells removed"),
'C05':("direct geometric integration of the cell (fans of simplices, exact integrals of arcs of circle, Newell normals)",
       "plane, space and curved meshes, any orientation, arcs, extruded and flat cells; relative 1e-9",
       "signs and orientations are conventions which must hold for each type and each dimension: a table of types times a random geometry"),
'C06':("the geometry of the mesh before the edition, cell by cell (coordinates of the connectivity), and the maps returned by the service",
       "24 groups of editing services; degenerate cells, coincident nodes, quadratic cells, extrusion along bent paths",
       "an edition can leave counts right and exchange two nodes; every cell is compared"),
'C07':("exact clipping of convex cells (props/clip.py), of arcs by Green's formula, and the products of the definition for the four natures",
       "every intersector (Triangulation, Convex, Geometric2D, PointLocator, Barycentric) and splitting policy which accepts the meshes; 1-D, 2-D, 3-D, surfaces, mixed dimensions, Cartesian, extruded; 1e-9 relative in 2-D, 1e-6 in 3-D",
       "conservation is checked against the volume of the overlap, pair by pair, on random general and superposed configurations"),
'C08':("dual cells, barycentric and shape functions integrated in Python over the clipped intersections",
       "simplices (and QUAD4/HEXA8, quadratic cells for the mapped methods); 1-D, 2-D, 3-D, planes of the space",
       "partition of unity and exactness on linear fields hold on every pair of meshes or the method is wrong"),
'C09':("brute force over all cells or nodes with own point-in-cell, distance and plane tests",
       "points inside, outside, near, on extreme positions; decisions within a margin are not judged",
       "a search tree which loses a candidate gives right answers nearly always: only many shapes and points show it"),
'C10':("areas and lengths cell by cell, exact clips of convex pairs, membership of random points, splitting nodes of each edge in order",
       "straight edges and arcs, conform and non conform meshes with T-junctions, 3-D faces cut by nodes of others",
       "the intersector has dozens of configurations (node on edge, tangent arcs, overlapping colinear edges); general and special positions are drawn"),
'C11':("section of each convex cell by the plane computed by clipping; Voronoi cells of the points by half-planes",
       "planes in general position, through nodes, along edges and faces; 2-D, 3-D cells and surfaces",
       "special positions of planes need to be built on purpose"),
'C12':("numpy arrays indexed by (i,j,k), and the explicit unstructured mesh",
       "grids of 1 to 3 dimensions, hierarchies of patches with ghosts, refinement factors up to 4; ghosts judged for 1 <= ghost <= min(factors)",
       "index formulas per dimension: all axes have different lengths and factors"),
'C13':("numpy arrays of the values with an own numbering of Gauss points, shape functions and measures",
       "five spatial and four time discretizations, every binary operator, part, renumbering, conversion, multi-field",
       "the product (operation) x (spatial) x (time) is sampled entirely, the tests contain a small part of it"),
'C14':("a model of the attributes of the object: after each single change of one attribute equality has to fail, after none it has to hold",
       "arrays, meshes of every class, fields of every type, multi-fields, Gauss localizations; pickle, serialization, deep copy, clone, equality with a reason",
       "equality and copies must see each attribute; attributes are enumerated per class"),
'C15':("an independent reader of the VTK XML formats written in Python (ascii, base64 appended data, offsets of polyhedra)",
       "every mesh class, polyhedra, mixed meshes, fields of all types, ascii and binary; unwritable files",
       "a file is judged as a reader sees it; the tests only compare reference files"),
'C16':("definition of permutations and of reverse Cuthill-McKee orderings checked on the graph, bandwidth",
       "graphs of 1 to some hundred nodes, several components, self loops, and meshes",
       "holds for every graph; ASan on the calls of METIS and Boost"),
'C17':("a model (cells, families, groups, numbers) edited along with the file mesh, every getter compared after each operation",
       "sequences of group edits, writes, partial and whole reads, aggregation; libmed 4.1 with the shim described below",
       "histories of edits; MEDLoader is not built by the standard build nor run by its tests, hence the build variant med"),
'C18':("lists of lists, Python slices and ranges",
       "histories of random operations, hostile indices included, one to three levels",
       "containers are right for each history or not; the state is compared after every operation"),
'C19':("normals, least-squares curvature and primitive recomputed in numpy for each node; analytic parameters of the shapes; motion",
       "planes, spheres, cylinders, cones, tori, bumps, tangent cylinders, random orientation and numbering; fits better conditioned than 1e-2",
       "built but nearly untested in the baseline; the first runs found five defects"),
}
o=[]
for p in sorted(P):
    m=importlib.import_module('props.'+p)
    orc,bnd,why=MORE[p]
    if hasattr(m,'OPS'): ops=sorted({x[0] for x in m.OPS},key=[x[0] for x in m.OPS].index)
    else: ops=[x[0] for k in('OPS1','OPS2','OPS3','OPS4') for x in getattr(m,k,[])]
    nc=sum(f.n if hasattr(f,'n') else f.quick for f in m.FAMILIES)
    e=ev.get(p,{})
    o.append(f"### {p} {P[p]['title']}\n")
    o.append(f"* Specified: {P[p]['statement']}")
    o.append(f"* Generated and monitored: {m.RULE}")
    o.append(f"* Groups of services: {', '.join(ops)} ({nc} cases in the quick tier, 15 times more in the thorough one).")
    o.append(f"* Oracle: {orc}.")
    o.append(f"* Bounds: {bnd}. Assumptions: {'; '.join(m.ASSUMPTIONS)}.")
    o.append(f"* Why the tests cannot reach it: {why}.\n")
import textwrap
body = []
for l in "\n".join(o).split("\n"):
    body += textwrap.wrap(l, 116, subsequent_indent="  ", break_long_words=False, break_on_hyphens=False) if l.startswith("* ") else [l]
K = json.load(open("/verif/known_findings.json"))
fi = "\n".join("\n".join(textwrap.wrap(f"* {x['id']} ({x['property']}): {x['what']}", 116, subsequent_indent="  ")) for x in K["findings"])
se = []
for d in sorted(os.listdir("/verif/seeded")):
    q = json.load(open(f"/verif/seeded/{d}/meta.json"))
    se += textwrap.wrap(f"* {d} ({q['property']}): {q['what_it_breaks']} Needs: {q['needs']}", 116, subsequent_indent="  ")
t = open("/verif/design_tail.md").read().replace("@FINDINGS@", fi).replace("@SEEDS@", "\n".join(se))
open("/verif/DESIGN.md", "w").write(open("/verif/design_head.md").read() + "## Properties\n\n" + "\n".join(body) + "\n" + t)
