"""Writes known_findings.json (run: python3 tools/findings.py). Fixed entries suppress nothing; a 'known' entry would carry the
violation kind and the sha256 of the failing (minimised) traces. There is no known unrepaired finding of a claimed property."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = '''
C07 6bef164 planning raised when the kernel selection set was a GeometryCollection
C06 437e14a planning divided by zero when the clock did not advance between two reads
C07 b260639 planning from the clusters of an incomplete plan raised (no cluster obstacle yet)
C05 640582e a plan stopped by max_iterations was reported complete with regions that still intersect
C01 984f71d regions made convex kept their old polygon in the cache, so that later convex hulls overlapped them
C05 e1b8ef4 running out of time while making regions convex returned no history
C08 fd40c4b a region that was made convex changed its identifier at every step
C05 2f40b22 kernel point selection never ended when the robot is at the goal
C06 64c44ec drawing a cluster raised (axes and handles mixed up)
C23 887da53 the normal of a combination raised before its polygon was asked for, and after an aborted call
C13 a94e1ed an aborted change of the reference point left vertex order and reference point inconsistent
C13 f6049d6 an aborted or concurrent computation of the global polygon left a stale polygon for the current pose
C14 1251642 an aborted or concurrent computation of the global kernel left a stale kernel for the current pose
C12 e4e0ac4 crossings of an ellipse with steep lines were reported at its top and bottom
C10 c6b39d2 the kernel of an ellipse was None before its polygon was asked for
C12 a1ece03 the order of ellipse tangent points was wrong when input and output frame differ
C05 e883b69 planning with excluded obstacles raised for ellipses
C22 79afe16 a guarded reference point update raised
C17 de67b38 the velocity reported for a body point did not depend on its distance to the centre of rotation
C15 2f80b7d the reference point was shared with the caller's arrays
C15 33e43cd the position was shared with the caller's arrays and changed in place by motion
C15 c2af59f tangent points shared memory with the vertices of the polygon
C18 6555b26 timetabled motion left its last position again
C10 580df1d boundary points on the bounding box of a polygon were reported outside
C06 b288417 drawing a polygon reseeded the global random stream
C11 957e4e7 no boundary point was found along the diagonals of a dilated polygon
C20 5926d91 generated convex polygons ignored the requested height
C23 9163c84 no boundary point of a region was found for points close to the reference point
C03 5a39609 the gift-wrapping hull never ended, or was wrong, for points close together or far away
C02 495dff5 a cone polygon was invalid when a ray passed close to a corner of its box, so that admissible kernels were wrong
C02 da6b81f kernel points were chosen outside the admissible kernel when the selection set did not contain the triangle centre
C01 a727551 parts of a region got lost in unions of almost coinciding polygons
C07 d6ca8c9 kernel point selection raised for admissible kernels with isolated points
C08 50ebb9f clusters of the same obstacles were not recognised when the obstacles were listed in another order
C23 45c61fc the region of a single polygon was a multi polygon, on which queries raised
C20 19738a0 edges of generated convex polygons were mixed up when several have the same direction
C23 0a98f8c queries on a cluster whose hull extensions are separate polygons raised
C22 3fcbe5b the kernel of nonconvex starshaped polygons was wrong, or raised, for symmetric, large or narrow shapes
C07 967b591 planning raised for scenes with nonconvex polygons (invalid starshaped hull)
C28 d539970 regions with almost coinciding vertices at their reflex corners were taken for convex and not made convex
C01 216de3a the kernel of clusters with obstacles that are not starshaped was chosen up to 10^6 away, the region fell apart
C05 63ab6bd planning raised for convex obstacles given as plain polygons
C04 e2818d3 planning raised because the kernel of a nonconvex polygon had almost coinciding vertices and got invalid when moved
C30 05fb84a planning with exclude_obstacles raised when a vertex of one obstacle was surrounded by another
C30 4bcf215 planning raised when the admissible kernel of a single obstacle was empty (robot and goal in opposite bays)
C34 6f92352 velocity of a combined region was that of an arbitrary member (crossings of the ray were taken for the members)
C11 6930ddc weighted normal of a starshaped polygon was no unit vector
C23 500c458 a guarded reference point update of a combined region without exact kernel raised
C12 55d0299 crossings of a segment along an edge of a polygon or region that meets the boundary elsewhere as well raised
'''
EXTRA = []
out = []
for l in F.strip().splitlines():
    p, c, w = l.split(' ', 2)
    out.append(dict(property=p, status='fixed', commit=c, what=w, text='fixed: property=%s %s %s' % (p, c, w)))
json.dump(dict(findings=out + EXTRA), open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
open(os.path.join(HERE, 'known_findings.json'), 'a').write('\n')
