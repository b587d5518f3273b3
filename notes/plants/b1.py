BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('s01_vertical_segment_order','C10',[("	if( !(ptA < ptB) )\n		std::swap( ptA, ptB );","	if( ptB.getX() < ptA.getX() )\n		std::swap( ptA, ptB );")],
'''Segment a(1,5,1,2), b(1,2,1,5);
CHECK( a == b );
CHECK( a.getPts().first == Point2d(1,2) );''','a vertical segment given top point first','points with equal x are no longer ordered on y, the two orders give different segments')

bug('s02_point_at_vertical','C13',[("	if( _ptS2.distTo( ppts.first ) < _ptS2.distTo( ppts.second ) )\n		return ppts.first;","	if( ( ppts.first.getX() > _ptS1.getX() ) == ( _ptS2.getX() > _ptS1.getX() ) )\n		return ppts.first;")],
'''OSegment up(2,1,2,9), right(0,0,8,1), left(8,1,0,0), down(2,9,2,1);
CHECK( up.getPointAt(3).distTo( Point2d(2,4) ) < 1e-6 );
CHECK( down.getPointAt(3).distTo( Point2d(2,6) ) < 1e-6 );
NEAR( right.getPointAt(3).distTo( Point2d(0,0) ), 3 );
NEAR( left.getPointAt(3).distTo( Point2d(8,1) ), 3 );''','a vertical oriented segment','the point at a distance along the vector is put behind the origin of a vertical vector')

bug('s03_rect_segment_dedupe','C16',[("				if( out.get()[0] == pt )\n					addPoint = false;","				if( out.get()[0].getX() == pt.getX() )\n					addPoint = false;")],
'''FRect r(0,0,10,10);
CHECK( r.intersects( Segment(-5,3,15,4) ).size() == 2 );
CHECK( r.intersects( Segment(0,-5,10,15) ).size() == 2 );
CHECK( r.intersects( Segment(4,-5,4,15) ).size() == 2 );''','a vertical segment crossing both horizontal sides','second intersection point of a vertical segment with a rectangle is dropped')

bug('s04_circle_in_rect','C19',[("				if( _center.getY() + rad < p2.getY() )\n					if( _center.getY() - rad > p1.getY() )","				if( _center.getY() + rad < p2.getY() )\n					if( _center.getY() > p1.getY() )")],
'''CHECK( Circle(5,5,2).isInside( FRect(0,0,10,10) ) );
CHECK( !Circle(5,9,2).isInside( FRect(0,0,10,10) ) );
CHECK( !Circle(5,1,2).isInside( FRect(0,0,10,10) ) );''','a circle crossing only the lower side, with its center in the rectangle','the circle is said to be inside although it crosses the lower side')

bug('s05_dist_beyond_end','C11',[("		if( param > 1. )\n		{","		if( param > 1. && B * D >= 0. )\n		{")],
'''Segment s(0,0,10,2);
NEAR( s.distTo( Point2d(14,5) ), 5 );
NEAR( Segment(0,0,10,0).distTo( Point2d(13,4) ), 5 );
NEAR( s.distTo( Point2d(12,-1) ), std::sqrt(13.) );''','a point beyond the second end, on the other vertical side of the first end','distance to the supporting line is returned instead of the distance to the end')

bug('s06_two_circles_nested','C15',[("	if( d_squared < ( r1*r1 + r2*r2 - (HOMOG2D_INUMTYPE)2.*r1*r2 ) )          // no intersection: one circle inside the other","	if( d_squared < r1*r1 && r1 > r2 && d_squared < ( r1 - r2 ) * r1 )          // no intersection: one circle inside the other")],
'''CHECK( Circle(Point2d(0,0),5).intersects( Circle(Point2d(1,0),2) ).size() == 0 );
CHECK( Circle(Point2d(0,0),5).intersects( Circle(Point2d(3.5,0.),2) ).size() == 2 );
CHECK( Circle(Point2d(0,0),5).intersects( Circle(Point2d(0,3.6),2) ).size() == 2 );
CHECK( Circle(Point2d(0,3.6),2).intersects( Circle(Point2d(0,0),5) ).size() == 2 );
CHECK( Circle(Point2d(1,0),2).intersects( Circle(Point2d(0,0),5) ).size() == 0 );''','circles one inside the other or slightly overlapping, by size order','intersections missed or invented for nearly nested circles')

bug('s07_simple_last_pair','C27',[("				auto lastone = i==0?nbs-1:nbs;","				auto lastone = nbs-1;")],
'''CPolyline ok( std::vector<Point2d>{ {0,0},{4,0},{4,4},{0,4} } );
CHECK( ok.isSimple() );
CPolyline p( std::vector<Point2d>{ {0,0},{2,3},{4,-1},{6,3},{10,0} } );
CHECK( !p.isSimple() );''','a crossing in which only the closing segment takes part','a closed polyline crossed by its closing segment is said to be simple')

bug('s08_normalize_reverse','C28',[("				std::reverse( _plinevec.begin(), _plinevec.end() );\n				minpos = std::min_element( _plinevec.begin(), _plinevec.end() );\n				std::rotate( _plinevec.begin(), minpos, _plinevec.end() );","				std::reverse( std::next( _plinevec.begin() ), std::prev( _plinevec.end(), _plinevec.size()>4 ? 1 : 0 ) );")],
'''CPolyline a( std::vector<Point2d>{ {0,0},{4,0},{4,4},{0,4} } ), b( std::vector<Point2d>{ {0,4},{4,4},{4,0},{0,0} } );
CHECK( a == b );
CPolyline c( std::vector<Point2d>{ {0,0},{4,0},{6,2},{4,4},{0,5} } ), d( std::vector<Point2d>{ {0,5},{4,4},{6,2},{4,0},{0,0} } );
CHECK( c == d );''','closed polyline of at least five points in the other direction','two equal polygons given in opposite directions are said to be different')

bug('s09_tm_point_tie','C32',[("			if( pt1.getY() > pt2.getY() )\n				return true;\n			if( pt1.getY() < pt2.getY() )\n				return false;\n			return( pt1.getX() < pt2.getX() );","			return pt1.getY() > pt2.getY();")],
'''std::vector<Point2d> v{ {5,9},{2,9},{3,1} };
CHECK( getTmPoint(v).first == Point2d(2,9) );
CHECK( getTmPoint(v).second == 1 );''','two points with the same highest ordinate, the right one first','the top-most point is no longer the left one of those of same height')

bug('s10_rect_area_three','C21',[("		auto ymin = std::min( v[0].getY(), std::min( v[1].getY(),v[2].getY() ) );\n","		auto ymin = std::min( v[0].getY(), v[1].getY() );\n")],
'''FRect a(0,0,10,4), b(4,0,10,8), c(0,0,4,10), d(0,0,10,6), e(0,4,10,10), f(4,0,10,10);
auto r = a.intersectArea( b ); CHECK( r() ); CHECK( r.get() == FRect(4,0,10,4) );
auto s = c.intersectArea( d ); CHECK( s() ); CHECK( s.get() == FRect(0,0,4,6) );
auto t = e.intersectArea( c ); CHECK( t() ); CHECK( t.get() == FRect(0,4,4,10) );
auto u = FRect(0,4,10,10).intersectArea( FRect(4,0,10,10) ); CHECK( u() ); CHECK( u.get() == FRect(4,4,10,10) );
auto v = FRect(0,5,10,10).intersectArea( FRect(0,0,6,10) ); CHECK( v() ); CHECK( v.get() == FRect(0,5,6,10) );''','rectangles sharing one corner and crossing once, with the lowest of the three points last','wrong intersection area for rectangles with three intersection points')

bug('s11_mec_swap','C18',[("	std::swap( P[idx], P[n - 1] );","	P[n - 1] = p;")],
'''std::vector<Point2d> v{ {0,0},{10,0},{4,7},{5,-6},{2,2},{9,8} };
for( int i=0;i<200;i++ )
{
	Circle c; c.set( v );
	for( auto& p: v )
		CHECK( p.distTo( c.center() ) < c.radius()+1e-6 );
}''','a random pick that is not the last point: that one is lost','the minimum enclosing circle misses some points')

bug('s12_isinside_poly_no_cross','C19',[("		for( const auto& pt: getPts() )\n			if( !pt.isInside( cpol ) )\n				return false;\n		if( intersects(cpol)() )\n			return false;\n		return true;","		for( const auto& pt: getPts() )\n			if( !pt.isInside( cpol ) )\n				return false;\n		return true;")],
'''CPolyline big( std::vector<Point2d>{ {0,0},{10,0},{10,10},{6,10},{6,2},{4,2},{4,10},{0,10} } );
CPolyline in( std::vector<Point2d>{ {1,1},{3,1},{2,5} } ), across( std::vector<Point2d>{ {1,8},{9,8},{5,1} } );
CHECK( in.isInside( big ) );
CHECK( !across.isInside( big ) );
OPolyline o( std::vector<Point2d>{ {1,8},{9,8} } );
CHECK( !o.isInside( big ) );''','all the points inside a non-convex polygon, with a side crossing its notch','a polyline leaving a non-convex polygon is said to be inside')
