#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: notes/design_head.md, one section per property, the findings, the planted bugs."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOW = {
'C01': 'Oracle: the coordinates given and the quotient of the homogeneous ones, |dx|,|dy| or distance against the threshold with a margin around it. Weights of either sign, points at infinity, all constructors.',
'C02': 'Oracle: a*x+b*y+c=0 for both points (no division), a^2+b^2=1, sign rule. Concrete directions with symbolic offsets, fully symbolic pairs, degenerate coefficients.',
'C03': 'Oracle: the returned point satisfies both equations; parallel families must throw.',
'C04': 'Oracle: squared distances and dot/cross products of symbolic points (no square root where it can be avoided); rejections around the thresholds.',
'C05': 'Oracle: cos of the angle against the dot product of the directions; acos/atan2 atoms carry their defining constraints; slopes around the angle threshold.',
'C06': 'Oracle: 3x3 products and determinants written out in the harness (hlib.hpp) up to scale; histories: all sequences of modifiers up to length 3, each followed by use on points and lines.',
'C07': 'Oracle: the elementary move applied to the symbolic point; sequences of two extensions; rotation atoms with sin^2+cos^2=1.',
'C08': 'Oracle: image of the line contains the images of two of its points, for affine and projective families; images of objects point by point; again after every kind of modification, copy and composition.',
'C09': 'buildFrom4Points with a stand-in for the Eigen solver (harness/stub): Gaussian elimination over the symbolic numbers. Oracle: image of each source is the destination (cross-multiplied). The linear solver of Eigen itself is not encoded.',
'C10': 'Oracle: lexicographic comparison of the given ends, squared lengths, means.',
'C11': 'Oracle: distance to the clamped projection, written without division by branching on the projection; also as "no point of the segment is nearer and one is at that distance".',
'C12': 'Oracle: signs of the four cross products with margins; the reported point satisfies both lines and lies between the ends.',
'C13': 'Oracle: affine combinations of the ends, cross-product signs.',
'C14': 'Oracle: squared distance of the line to the center against the squared radius; points on both; segments by the parameter along the line.',
'C15': 'Oracle: d^2 against (r1-r2)^2 and (r1+r2)^2 with margins; points on both circles.',
'C16': 'Oracle: intersections with each of the four sides computed by geom.hpp and merged; counts and membership; symmetric calls.',
'C17': 'Oracle: the same with the sides of the polyline, closing side included only when closed.',
'C18': 'Circles: equal squared distances. Minimum enclosing circle: std::rand is replaced by the engine by a branching choice, so every pick order is explored; the circle contains all points and is one of the pair/triple circles that do.',
'C19': 'Oracle: inequalities of the shape with margins; polygons with even-odd rule of geom.hpp; documented exclusions.',
'C20': 'Oracle: min/max of the coordinates given.',
'C21': 'Oracle: per-axis overlap; area by inclusion-exclusion; the union polygon is compared by area and by membership of the corners.',
'C22': 'Oracle: image of the corners.',
'C23': 'Oracle: the parameters given; the conic is compared by its equation at symbolic points, angles by sin/cos atoms; concrete angle families and one symbolic angle.',
'C24': 'Oracle: quadratic form written from the parameters; tangency of the box by discriminant; axis lines by incidence.',
'C25': 'Oracle: point on the result iff pre-image on the source, with a symbolic point of the source (rational parametrisation).',
'C26': 'Oracle: shoelace formulas over the current points; histories of modifications with cached values read in between.',
'C27': 'Oracle: segment-segment tests between non-adjacent sides, turn signs.',
'C28': 'Oracle: cyclic sequences of points; all rotations and both directions.',
'C29': 'Oracle: even-odd rule by branching on the signs of cross products; query point symbolic in one or both coordinates, including the special positions on supports of sides and in line with vertices.',
'C30': 'Oracle: the point map applied point by point.',
'C31': 'Oracle: min/max by branching; every side touches.',
'C32': 'Oracle: membership and order comparison with tie rules of the documentation.',
'C33': 'Oracle: vertices are members, all cross products of a side with a member are non-negative.',
'C34': 'Oracle: squared distances to all members; exclusion of equal points.',
'C35': 'Oracle: distance of the center to the line equals the radius, contact points on both.',
'C36': 'Oracle: parallelism and distance of corresponding sides; bisectors by equal distance to both sides; reduction keeps the outline.',
'C37': 'Oracle: squared radii and side lengths; vectors of opposite sides.',
'C38': 'tinyxml2 is replaced by a stand-in (harness/stub/tinyxml2.h) that serves attribute texts with symbolic number tokens; the path parser and visitor of the library run unmodified. Oracle: SVG 1.1 semantics of the commands.',
'C39': 'Oracle: the direct call on the same primitive.',
'C40': 'The written text carries symbolic number tokens; it is parsed in the harness and compared with the primitive and the drawing parameters.',
'C42': 'OpenCV and Boost are replaced by stand-ins with the same interface (harness/stub/opencv2, boost headers are the real ones) that record values and drawing calls. The libraries themselves are not encoded.',
'C43': 'C23-C25 harness families compiled with HOMOG2D_OPTIMIZE_SPEED, reading the parameters before and after every modification.',
'C44': 'Oracle: the member function, or the definition for functions on sets.',
'C45': 'Two distinct symbolic number types in one program (Num, NumL; double and long double in the replay); oracle: the same computation with one type.',
'C46': 'The threshold variables themselves are set to a symbolic value for the duration of a call. Oracle: the compared quantity (distance, angle, determinant...) computed independently, against that symbolic value.',
'C47': 'The produced text carries symbolic number tokens; it is parsed back and compared with the values of the object.',
}
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
M = json.load(open(V + '/MANIFEST.json'))
na = {d['property']: d['reason'] for d in M['not_applicable']}
o = [open(V + '/notes/design_head.md').read(), '\n## Properties\n']
for d in P:
    i = d['id']
    o.append('### %s %s\n' % (i, d['title']))
    if i in na:
        o.append('Not applicable: %s\n' % na[i]); continue
    src = open(V + '/harness/%s.cpp' % i).read()
    inc = ''.join(open(V + '/harness/' + m).read() for m in re.findall(r'#include "(C\d+\.cpp)"', src))
    cases = re.findall(r'CASE\((\w+)', src + inc)
    o.append('%s\nBounds: %s (exact ranges: `in`, `choose`, `assume` lines of harness/%s.cpp). %d cases: %s.\n' % (HOW.get(i, ''), d['quantifier']['text'], i, len(cases), ', '.join(cases)))
o.append('\n## Genuine defects found and repaired\n')
for k in json.load(open(V + '/known_findings.json')): o.append('* %s %s' % (k['id'], k['text'] if k.get('text') else k.get('what')))
o.append('\n## Planted bugs\n\nEach is in seeded/<id>/; "caught by" is the check of its property (run on the patched tree).\n\n| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
res = json.load(open(V + '/notes/caught.json')) if os.path.exists(V + '/notes/caught.json') else {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[-2]
    o.append('| %s | %s | %s | %s | %s |' % (n, m['property'], m['what_it_breaks'], m['needs'], res.get(n, m['property'])))
o.append('\n' + open(V + '/notes/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
