#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from one table (claimed = a harness of that name exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, H, G = 'inputs', 'histories', 'configurations'
P = []
def p(id, title, statement, text, mech, over=(I,), why=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, mech=mech, over=list(over), why=why, na=na))

p('C01', 'Point coordinates, homogeneous equality and ordering',
  'A point built, set, copied or moved reports exactly the euclidean coordinates it was given (for homogeneous input, the first two values over the third), whatever the scale or sign of the homogeneous triplet. Equality is reflexive, symmetric, holds exactly when two points are closer than the null-distance threshold, and != is its negation; < is the lexicographic strict order on (x,y). Points at infinity are accepted and flagged, the null triplet is rejected by an exception, and the distance between points is the euclidean one.',
  'every finite coordinate in [-100,100], every homogeneous weight away from 0',
  ['base::LPBase point constructors/set/getX/getY', 'LPBase::impl_normalize (point)', 'LPBase::impl_op_equal, operator<', 'LPBase::impl_distToPoint', 'LPBase::translate/moveTo'])
p('C02', 'Line through two points: incidence, normal form, rejection',
  'The line built from two distinct points (in any order, by any constructor or by the product of the points) contains both points, and the line built from coefficients, an orientation or an anchor point is the line described. Its coefficients are always normalised: unit normal, first coefficient non-negative, second positive when the first is null. Two equal points, or a null normal, are rejected by an exception; equality of lines holds exactly for the same direction and offset within the thresholds.',
  'all pairs of points in [-10,10]^2 at least 0.03 apart, all coefficient triplets with a normal of norm over 0.03',
  ['base::LPBase line constructors', 'LPBase::impl_normalize (line)', 'detail::crossProduct', 'operator*(Point2d,Point2d)', 'LPBase::impl_op_equal'])
p('C03', 'Intersection point of two lines',
  'The product and the intersection of two non-parallel lines is the one point lying on both, independently of the order of the operands and of the scale of the coefficients; the lines joining a point to two others meet at that point. For lines that are parallel within the angle threshold the product throws and no intersection is reported.',
  'lines of 7 concrete directions with symbolic offset, and lines of symbolic direction against concrete ones',
  ['operator*(Line2d,Line2d)', 'LPBase::intersects(Line2d)', 'detail::crossProduct'])
p('C04', 'Line constructions: distance, orthogonal, parallel, rotated, points on it',
  'The distance from a point to a line is the euclidean one; the orthogonal, parallel and rotated line at a point pass through that point with the required direction and are in normal form. Points requested on a line by coordinate or by distance lie on it at that distance on both sides in lexicographic order; the orthogonal segment goes from the foot on the line to the point with the point-line distance as length; the two parallels at a distance are at exactly that distance, one on each side. Requests that have no answer (null denominator, point not on the line, lines not parallel) throw.',
  'lines of 7 concrete directions with symbolic offset or of symbolic direction, points and distances in [-10,10]',
  ['LPBase::getOrthogLine/getParallelLine/getParallelLines/getRotatedLine/getPoints/getPoint/getCoord/getOrthogSegment', 'priv::getPoints_B2, priv::getOrthogonalLine_B2', 'getParallelDistance'])
p('C05', 'Angles and parallelism between lines, segments and vectors',
  'The angle between two lines or segments lies in [0,pi/2], is symmetric and has the cosine given by the directions, whatever their scale and orientation; for oriented segments it is the signed angle of the vectors. Two objects are parallel exactly when that angle is below the angle threshold.',
  'symbolic directions of norm over 0.1 against concrete ones, relative slopes in [-1,1] across the threshold',
  ['LPBase::getAngle, isParallelTo', 'base::SegVec::getAngle, isParallelTo', 'getAngle()'])
p('C06', 'Homography algebra: composition, inverse, transpose, equality',
  'Applying the product of two transformations to a point equals applying them one after the other; the inverse undoes the transformation, its transpose is an involution, and the inverse of a non-invertible matrix throws. Equality ignores the scale factor, and a transformation modified in any way (assignment, elementary setter, composition, transpose, inverse) afterwards acts according to its current values only.',
  'symbolic matrix entries (up to 4 at a time) around concrete invertible matrices, and every sequence of modifications up to length 3 from a fixed menu',
  ['Hmatrix_ operator*, operator==, inverse, transpose, operator=', 'detail::Matrix_', 'Hmatrix_::p_fillHmt'], over=(I, H))
p('C07', 'Building transformations: translation, rotation, scale',
  'A transformation initialised or extended by a translation, rotation or scale maps every point as that elementary move does, extensions being applied after what is already there. The identity is neutral, the default constructor and init() give the identity, and constructors from an angle, an offset or a matrix give the described transformation.',
  'symbolic offsets, angles, factors and points; sequences of two extensions',
  ['Hmatrix_::setTranslation/addTranslation/setRotation/addRotation/setScale/addScale/init/buildFrom*'], over=(I, H))
p('C08', 'Transformations preserve incidence',
  'If a point lies on a line, the transformed point lies on the transformed line; transformed segments, polylines and containers are made of the transformed points in the same order; a transformed rectangle is the polygon of its transformed corners. This remains true after the transformation object has been modified, copied or composed.',
  'affine and projective families with symbolic entries, symbolic points; histories of modification between two uses',
  ['operator*(Homogr,Point2d/Line2d/Segment/Polyline/FRect/container)', 'Hmatrix_ cached inverse-transpose'], over=(I, H))
p('C09', 'Homography from point correspondences',
  'A transformation computed from four point correspondences maps each source point to its destination.',
  'all sets of four correspondences without three aligned points',
  ['Hmatrix_::buildFrom4Points'])
p('C10', 'Segments: points, order, equality, length, middle',
  'A segment stores its two points in lexicographic order whatever the order given, so both orders are equal; an oriented segment keeps the order, and conversions between both keep the points. Length, squared length, middle point, supporting line and translation agree with the coordinates, the order on segments is a strict order in which equal segments are not ordered, and null-length segments are rejected.',
  'all end points in [-10,10]^2 at least 0.03 apart',
  ['base::SegVec constructors, set, getPts, length, getCenter, operator==, operator<', 'priv::fix_order'])
p('C11', 'Distance from a point to a segment',
  'The distance from a point to a segment is the smallest distance to any of its points: the distance to the nearest end when the orthogonal projection falls outside, to the supporting line otherwise. The side reported for that decision is consistent with it and the result does not depend on the order of the ends.',
  'concrete segments in 7 directions with symbolic length, all query points in [-10,10]^2, and symbolic end points',
  ['base::SegVec::distTo'])
p('C12', 'Intersections between segments and lines',
  'Two segments intersect exactly when they share one point (up to threshold margins), and the reported point lies on both; a line and a segment intersect exactly when the ends are not strictly on the same side. The answers are symmetric, and parallel supports give no intersection.',
  'one symbolic segment against 6 concrete ones, symbolic lines against concrete segments',
  ['base::SegVec::intersects(SegVec/Line2d)', 'detail::Intersect'])
p('C13', 'Segment constructions: split, extension, offset, bisector, side',
  'Splitting a segment at its middle or at a distance, extending it, taking its parallels, its orthogonals or its bisector give exactly the geometric objects described, oriented ones keeping orientation. The side of a point relative to an oriented segment is left, right or none according to the sign of the cross product, and the angle between oriented segments has the sign of the turn from the first to the second.',
  'symbolic end points (one concrete end) and distances',
  ['base::SegVec::split/getExtended/getParallelSegs/getOrthogSegs/getBisector/getPointAt/getPointSide, OSegment operators'])
p('C14', 'Line and segment intersections with a circle',
  'A line intersects a circle exactly when its distance to the center is below the radius; the two reported points lie on both and are ordered. A segment reports exactly those of these points lying between its ends.',
  'circles of symbolic center/radius against lines of concrete directions, and symbolic segments against concrete circles',
  ['LPBase::impl_intersectsCircle', 'base::SegVec::intersects(Circle)'])
p('C15', 'Circle-circle intersection',
  'Two circles intersect exactly when the distance between the centers lies between the difference and the sum of the radii; the reported points lie on both circles, are distinct unless tangent, and the answer is symmetric. Identical or concentric circles report none.',
  'symbolic center distance and radii in 5 concrete directions',
  ['Circle_::intersects(Circle)'])
p('C16', 'Intersections with flat rectangles',
  'The intersection of a line, segment, circle or rectangle with a flat rectangle reports exactly the points shared by the outlines, each once, each lying on both outlines, and the answer is symmetric.',
  'concrete rectangles against symbolic lines, segments, circles and rectangles, away from threshold-sized degeneracies',
  ['LPBase::impl_intersectsFRect', 'base::SegVec::intersects(FRect)', 'Circle_::intersects(FRect)', 'FRect_::intersects(FRect)', 'detail::IntersectM'])
p('C17', 'Intersections with polylines',
  'A polyline and another object intersect exactly when one of its segments does (including the closing one for closed polylines only), the reported points lie on both objects, and the answer is symmetric between the operands.',
  'concrete polylines with one symbolic vertex against symbolic lines, segments, circles, rectangles and polylines',
  ['PolylineBase::intersects', 'priv::...intersects loops'])
p('C18', 'Circles through points and minimum enclosing circle',
  'The circle from two points has them as diameter, from three points passes through all of them (aligned points throw), from a center and a radius keeps both. The minimum enclosing circle of a set of points contains every one of them and is not larger than needed: it passes through at least two of them and no circle through fewer determines it.',
  'symbolic third point against concrete pairs; sets of 2 to 5 points with one symbolic point',
  ['Circle_ constructors and set', 'priv::circle MEC (Welzl)'])
p('C19', 'Containment predicates',
  'A point, segment, circle, rectangle or polyline is reported inside a circle, rectangle or polygon (or, circles excepted, an ellipse) exactly when all of it lies strictly inside (away from the boundary threshold), and the set of points inside a shape is exactly those, in their order. Lines are never inside, nothing is inside a point, line, segment, open polyline, or itself.',
  'concrete containers against symbolic content and conversely, with a margin around the boundary',
  ['*::isInside', 'detail::ptIsInside'])
p('C20', 'Flat rectangle corners and measures',
  'A rectangle built from any two opposite corners, from a center and sizes or from a container of points reports its true bottom-left and top-right corners, width, height, center, area, perimeter, corners and sides in the documented order. Zero width or height is rejected, and equality compares corners.',
  'all pairs of corners in [-10,10]^2 with width and height over 1e-3',
  ['FRect_ constructors, set, get4Pts, getSegs, width, height, area, getCenter', 'detail::getCorrectPoints'])
p('C21', 'Union, intersection area and IoU of rectangles',
  'The intersection of two rectangles is the common rectangle when one exists, with the corresponding area (0 otherwise); their union is the polygon covering exactly both, with area equal to the sum minus the intersection. The intersection over union lies in [0,1], is symmetric and 1 for equal rectangles.',
  'a concrete rectangle against all symbolic rectangles in [-10,10]^2',
  ['FRect_::intersectArea/unionArea/unionPoly, IOU', 'runion::*'])
p('C22', 'Rectangle moves and derived shapes',
  'Translating or moving a rectangle keeps its size and puts its corner where asked; rotating it by quarter turns gives the rotated rectangle. The bounding circle passes through the corners, the inscribed circle touches the nearest sides, diagonals join opposite corners and the extended rectangle is three times larger around the same center.',
  'all rectangles and offsets in [-10,10]',
  ['FRect_::translate/moveTo/rotate/getBoundingCircle/getInscribedCircle/getDiagonals/getExtended'])
p('C23', 'Ellipse parameters survive the conic representation',
  'An ellipse built from a center, two half-axes and an angle (or from a circle) reports that center, those axes with the major one first, and that direction, its area, its perimeter (within the accuracy of the second formula of Ramanujan), and whether it is a circle; equality holds exactly for the same geometric ellipse, wherever it lies relative to the origin, and comparing leaves both unchanged.',
  'symbolic center, axes and angle, two or three at a time',
  ['Ellipse_ constructors, p_init, p_getParams, operator=='])
p('C24', 'Ellipse containment, axes, bounding boxes, area',
  'A point is inside an ellipse exactly when its normalised quadratic distance is below one; the axis lines cross at the center along the axes; the bounding box is tangent to the ellipse and aligned, the oriented box has its sides on the axes ends. Area is pi times the product of the half-axes.',
  'symbolic center and axes, concrete and symbolic angles',
  ['Ellipse_::pointIsInside/getAxisLines/getBB/getOBB/area'])
p('C25', 'Ellipses and circles under transformations and moves',
  'Transforming a circle or an ellipse by an invertible affinity yields the ellipse of the transformed points: a point is on the result exactly when its pre-image is on the source. Translating and moving keep axes and angle and move the center as asked.',
  'affine families with symbolic entries, symbolic points on the conic',
  ['operator*(Homogr,Circle), operator*(Homogr,Ellipse)', 'Ellipse_::translate/moveTo', 'Circle_::translate/moveTo'])
p('C26', 'Length, area and centroid, always of the current shape',
  'The length of a polyline is the sum of its segments, the closing one only if closed; the area of a simple closed polyline is that given by the shoelace formula (never negative, 0 when open or crossing), and its centroid the area centroid. After any modification (set, translate, move, rotate, assignment, reduction) these report the values of the current points.',
  'polylines of 3 to 5 points with symbolic vertices; histories query-modify-query',
  ['PolylineBase::length/area/centroid', 'PlAttribs caches'], over=(I, H))
p('C27', 'Polygon simplicity and convexity',
  'A closed polyline is simple exactly when no two non-adjacent sides meet (and it has at least 3 points), and convex exactly when it is simple and all turns have the same direction; open ones are never polygons. The answers do not depend on the starting point or direction and are not stale after a change.',
  'quadrilaterals and pentagons with one symbolic vertex',
  ['PolylineBase::isSimple/isConvex'], over=(I, H))
p('C28', 'Polyline identity: equality, rotation of start, segments',
  'Closed polylines describing the same cycle of points are equal whatever the starting point and direction, open ones whatever the direction; others differ. Size, points and segments reported correspond to the points given, in order, with the closing segment only when closed; containers with too few points or consecutive duplicates are rejected.',
  'polylines of 3 to 5 points with symbolic vertices',
  ['PolylineBase::operator==, p_normalizePoly, set, getPts, getSegs, nbSegs'])
p('C29', 'Point in polygon',
  'A point is inside a simple closed polyline exactly when it lies in its interior, convex or not, wherever it is (aligned with vertices or with the support of a side included); never inside an open one.',
  'concrete convex and non-convex polygons, every query point in their surroundings except within 1e-3 of the outline',
  ['LPBase::impl_isInsidePoly'])
p('C30', 'Moving, rotating and reversing polylines',
  'Translating, moving to a point, rotating (by quarter turns or mirror, around any reference point) or reversing a polyline changes its points exactly as the corresponding point map does, and keeps size, length and area.',
  'polylines with symbolic vertices and offsets, all rotation modes',
  ['PolylineBase::translate/moveTo/rotate/p_rotate'], over=(I, H))
p('C31', 'Bounding boxes',
  'The bounding box of a segment, circle, rectangle, polyline, container of points or primitives, or of a pair of these is the smallest axis-aligned rectangle containing them: every point is within it and each side touches one. Where no such box exists (aligned points, lines) an exception is thrown.',
  'symbolic shapes of up to 4 symbolic coordinates, containers of up to 4 elements',
  ['getBB overloads', 'priv::getBB_*', 'base::PolylineBase::getBB'])
p('C32', 'Extreme points and ordering helpers',
  'The extreme point of a set in a direction (top, bottom, left, right) is a member of the set that no other point exceeds in that direction; free functions and member functions agree.',
  'sets of 4 to 5 points with symbolic points',
  ['getExtremePoint, getTopmostPoint, ... , priv::*'])
p('C33', 'Convex hull',
  'The convex hull of a set of points is a convex polygon whose vertices belong to the set and that contains every point of the set, whatever their order, including duplicates and aligned points.',
  'sets of 4 to 6 points with up to 2 symbolic points',
  ['convexHull', 'chull::*'])
p('C34', 'Nearest and farthest points',
  'The nearest (farthest) point of a container to a query point is a member at the smallest (largest) distance, the query point itself being ignored, and the combined query returns both. The closest segment queries return the element with the smallest distance.',
  'containers of 3 to 5 points with symbolic query point or symbolic member',
  ['findNearestPoint/findFarthestPoint/findNearestFarthestPoint', 'getClosestPoint...'])
p('C35', 'Tangents of circles',
  'The tangent lines reported for two circles, or from a point to a circle, touch each circle: their distance to each center is that circle radius. Tangent segments start and end at contact points.',
  'symbolic circles in concrete directions',
  ['getTanSegs', 'LPBase / Circle_ tangents'])
p('C36', 'Offset polygons, bisector lines and reduction',
  'Every side of an offset polygon is parallel to the corresponding side at the requested distance; bisector lines at a vertex make equal angles with both sides. Reducing a polyline removes only vertices lying on the line of their neighbours.',
  'triangles and quadrilaterals with one symbolic vertex, symbolic distance',
  ['PolylineBase::getOffsetPoly/getBisectorLines/minimize'])
p('C37', 'Regular polygons and parallelograms',
  'A regular polygon is built with the requested number of vertices, all at the requested radius from the origin and all sides equal; the reported inscribed radius and segment length match it. A parallelogram is completed from three points so that opposite sides are equal vectors.',
  'symbolic radius, 3 to 12 vertices; symbolic third point',
  ['PolylineBase::set(radius,n), CPolyline(FRect), setParallelogram'])
p('C38', 'SVG import reproduces the geometry of the file',
  'Importing an SVG document yields, for each supported element in the order of the document, the primitive it describes: circle, rectangle, segment, ellipse (rotated or not), polygon and polyline, and for paths the polylines given by absolute, relative, horizontal, vertical, move and close commands, as the SVG specification defines them. Malformed paths are rejected by the parser (and skipped by the import), a missing or non numerical attribute is reported by an exception, and nothing is invented or dropped.',
  'path programs of up to 6 commands from a menu with symbolic coordinates and several writing styles; elements with symbolic attributes; open polylines whose last point is the first one excluded (documented)',
  ['svg::Visitor', 'svg::svgp::parsePath/generatePoints/getNextElem', 'svg::importSvg'], over=(I, 'programs'))
p('C39', 'Runtime polymorphism agrees with direct calls',
  'Applying an operation (length, area, size, move, transform, bounding box, containment, type) to a primitive held in the common variant type or through the root pointer gives the same result as calling it on the primitive itself.',
  'each primitive type with symbolic coordinates, each operation',
  ['fct::*Functor', 'rtp::Root', 'CommonType_'])
p('C40', 'Drawing to SVG writes the described geometry',
  'Drawing a circle, rectangle, segment, polyline or ellipse on an SVG image and importing the written document gives the same primitive back, several objects in their order; oriented segments get their arrows, points the symbol of the style and size set (nothing outside the image), lines are cut by the image. The document is well formed, and colour, thickness, fill, added attributes, text and image size appear as set, the defaults as last set.',
  'symbolic coordinates for each primitive and call form, a menu of parameters; the writing of a number is taken as exact (six digits in the real code)',
  ['*::draw(img::Image<img::SvgImage>)', 'img::DrawParams', 'img::Image<SvgImage>', 'draw() free functions', 'drawText'])
p('C41', 'Results are independent of floating-point rounding',
  'Every computation stated by the other properties keeps its relation within a tolerance proportional to the type precision, for float, double and long double.',
  'all floating-point inputs',
  ['all arithmetic'], na='would need bit-precise floating-point encodings of hypot/sqrt/acos and of 3x3 algebra: the FP theories of z3/cvc5 do not decide a single such query here within minutes, so rounding is left outside every claim')
p('C43', 'Cached ellipse parameters are never stale (HOMOG2D_OPTIMIZE_SPEED)',
  'With the build option that stores the parameters of ellipses, everything stated for ellipses (construction, equality, containment, boxes, axes, transformations, moves, copies) holds unchanged: the reported parameters are always those of the current ellipse.',
  'the cases of C23, C24 and C25, with the option set',
  ['Ellipse_::p_getParams, p_init (_epHasChanged)'], over=(I, H, G))
p('C42', 'Bindings to other geometry libraries',
  'Points, vectors of points, polygons and transformation matrices exchanged with OpenCV or Boost.Geometry keep their values both ways: coordinates are rounded only where the target holds integers, matrices of 32 or 64 bit reals give the same transformation and take the place of the previous one in everything it does afterwards, and a polyline made of a polygon (closed or not, empty or not) has its points. Drawing on an OpenCV image issues the calls that describe the primitive: same points, radius, axes, angle, color and thickness.',
  'coordinates, sizes and matrix entries over symbolic reals, against stand-ins of the OpenCV and Boost types that record what they are given',
  ['LPBase::getCvPtd/getCvPtf/getCvPti', 'getPts, getPt', 'Hmatrix_ cv::Mat constructor, operator=, copyTo', 'PolylineBase boost constructors', 'img::Image<cv::Mat> drawing functions'], over=(I, H))
p('C44', 'Free functions and helpers on sets',
  'The free functions that mirror a member function (length, area, size, sides, points, center, bounding box, moves, rotations, transformations) give its result for every primitive, and those on sets give what they name: alignment of three points is reported up to the threshold and in any order, the centers and the supporting lines of a container are those of its elements in order, and a transformation applied to a container transforms each element in order.',
  'one to three symbolic coordinates per object, every primitive type',
  ['areCollinear', 'getLargestDistancePoints', 'areParallel', 'getCenters', 'getLines', 'free wrapper functions', 'operator*(Homogr,container)'])
p('C45', 'Objects over different number types',
  'Converting an object to another floating-point type and back, by construction or assignment, keeps the geometry, and comparing or combining objects of different number types (distance, side, containment, intersection, products, transformation) gives the result that the same objects of one type give, including that there is no intersection.',
  'one or two symbolic coordinates per object, two distinct number types in one program (both exact in the encoding: the loss of precision is outside the claim)',
  ['converting constructors and assignments of every primitive', 'detail::Intersect converting constructors', 'mixed-type operators and members'])
p('C46', 'Thresholds in force',
  'Every comparison that the manual ties to a documented threshold (equality of points, lines and matrices, parallelism, membership of a line or a polygon outline, alignment, null determinant, null denominator, point at infinity, degenerate circles, segments, rectangles and polylines, reduction of polylines) uses the value the threshold has at the time of the call: changing it moves the frontier exactly there, and restoring it restores the behaviour.',
  'the value of the threshold and the compared quantity both symbolic (relative to a margin of about 1e-3 around equality)',
  ['namespace thr', 'every use of thr::nullDistance(), nullOrthogDistance(), nullAngleValue(), nullDenom(), nullDeter()'])
p('C47', 'Stream output of objects',
  'Writing a primitive, a homography, an intersection result, a container or pair of objects or the thresholds to a stream writes, to that stream and in the documented order, the values of the object (the coordinates of a point, the unit coefficients of a line, the ends of a segment in order for an oriented one, center and size, every vertex in order), and the type names are those of the objects.',
  'all written values over symbolic reals (text carried as symbolic number tokens)',
  ['operator<< of every type', 'thr::printThresholds', 'getString(Type)'])

def main():
    import subprocess
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d in P:
            f.write(json.dumps({'id': d['id'], 'title': d['title'], 'statement': d['statement'],
                'quantifier': {'over': d['over'], 'text': d['text']},
                'why_tests_cant': d['why'] or 'The claim ranges over all real-valued inputs in the stated domain; the stable tests only compile and smoke-run fixed programs, and the unit tests of the repository sample a few fixed values per function.',
                'anchors': {'files': ['homog2d.hpp'], 'mechanism': [{'name': m, 'where': 'homog2d.hpp: ' + m} for m in d['mech']]}}) + '\n')
    checks, na = [], []
    for d in P:
        if os.path.exists(os.path.join(V, 'harness', d['id'] + '.cpp')):
            checks.append({'property': d['id'], 'quick_cmd': 'python3 run.py ' + d['id'], 'thorough_cmd': 'python3 run.py %s --thorough' % d['id'],
                'technique': 'symbolic execution of the real templates + SMT (nonlinear real arithmetic)', 'level': 'model_checking',
                'level_note': 'Every path of the instantiated library code within the stated bounds, decided by z3/cvc5 over exact reals (%s); counterexamples are replayed on the real double code. Rounding error, and what lies outside the bounds, is not covered.' % d['text']})
        else:
            na.append({'property': d['id'], 'reason': d['na'] or 'no check yet'})
    m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
