BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('s13_adjugate_sign','C08',[("		out[ 2 ][ 1 ] = -p_det2x2( {0,0, 0,1, 2,0, 2,1} );","		out[ 2 ][ 1 ] =  p_det2x2( {0,0, 0,1, 2,0, 2,1} );")],
'''Homogr a; a.addTranslation(3,4).addRotation(0.5).addScale(2,3);
Homogr h; h.value(2,0)=0.05; h.value(2,1)=0.1; h.value(0,1)=0.3; h.value(2,2)=1.;
for( const auto& m: { a*Homogr(), h } )
{
	Point2d p1(1,2), p2(4,-1);
	Line2d l = m * Line2d(p1,p2);
	CHECK( l.distTo( m*p1 ) < 1e-6 );
	CHECK( l.distTo( m*p2 ) < 1e-6 );
}''','a transformation with perspective terms','the inverse matrix is wrong as soon as the last row is not 0 0 1')

bug('s14_set_scale_keeps','C07',[("		HOMOG2D_CHECK_IS_NUMBER(T1);\n		HOMOG2D_CHECK_IS_NUMBER(T2);\n		init();\n		auto& mat = detail::Matrix_<FPT>::_mdata;\n		mat[0][0] = kx;","		HOMOG2D_CHECK_IS_NUMBER(T1);\n		HOMOG2D_CHECK_IS_NUMBER(T2);\n		auto& mat = detail::Matrix_<FPT>::_mdata;\n		mat[0][0] = kx;")],
'''Homogr h; h.setScale(2,3);
CHECK( (h*Point2d(1,1)).distTo( Point2d(2,3) ) < 1e-9 );
h.setTranslation(5,6); h.setScale(2,3);
CHECK( (h*Point2d(1,1)).distTo( Point2d(2,3) ) < 1e-9 );''','setScale() on a transformation that already holds a translation or rotation','setScale() keeps the previous translation and rotation terms')

bug('s15_value_keeps_normalized','C06',[("			HOMOG2D_CHECK_ROW_COL;\n		#endif\n		_isNormalized = false;\n		return _mdata[r][c];","			HOMOG2D_CHECK_ROW_COL;\n		#endif\n		return _mdata[r][c];")],
'''Homogr a, b; CHECK( a == b );
a.value(0,2) = 4; a.value(2,2) = 2;
b.set(0,0,0.5); b.set(1,1,0.5); b.set(0,2,2);
CHECK( a == b );''','an element changed through the reference returned by value() after a comparison','comparison uses the un-normalized values: two equal transformations differ')

bug('s16_parallel_vertical','C13',[("		if( getPointSide(pB1) == PointSide::Left )\n		{","		if( (getPointSide(pB1) == PointSide::Left) != (_ptS1.getY() > _ptS2.getY() && _ptS1.getX() == _ptS2.getX()) )\n		{")],
'''OSegment a(0,0,4,1), b(2,1,2,9), c(2,9,2,1);
for( auto s: {a,b,c} )
{
	auto p = s.getParallelSegs(2);
	CHECK( s.getPointSide( p.first.getPts().first ) == PointSide::Left );
	CHECK( s.getPointSide( p.second.getPts().first ) == PointSide::Right );
}''','a vertical oriented segment going down','the left and right parallel segments are swapped')

bug('s17_getpts_stale','C26',[("		_attribs.setBad();  // because we send the non-const reference\n","")],
'''CPolyline p( std::vector<Point2d>{ {0,0},{4,0},{4,4},{0,4} } );
NEAR( p.area(), 16 );
p.getPts()[2].set( 8, 4 ); p.getPts()[1].set( 8, 0 );
NEAR( p.area(), 32 ); NEAR( p.length(), 24 );''','a point modified through the reference after the area was computed','area and length are the ones of the former shape')

bug('s18_ellipse_theta_obtuse','C24',[("		if( A > C )\n			par.theta = M_PI/2.;\n	}\n	else\n	{\n		auto t = (C - A - sqr) / B;","		if( A > C )\n			par.theta = M_PI/2.;\n	}\n	else\n	{\n		auto t = (C - A - sqr) / ( A > C && B > 0 ? -B : B );")] if False else [("		if( A > C )\n","		if( A > C && D != 0. )\n")],
'''Ellipse a(3,4,5,2,M_PI/2), b(0,4,5,2,M_PI/2);
CHECK( Point2d(3,8).isInside(a) );
CHECK( !Point2d(7,4).isInside(a) );
CHECK( Point2d(0,8).isInside(b) );
CHECK( !Point2d(4,4).isInside(b) );''','an upright ellipse whose center is on the vertical axis','the ellipse is taken as lying: inside, boxes and axes are wrong')

bug('s19_find_farthest_equal','C34',[("				if( currentDist > resDist )\n				{\n					resIdx  = i;\n					resDist = currentDist;\n				}","				if( currentDist > resDist )\n				{\n					resIdx  = i;\n					if( currentDist < 4. * resDist || i == startIdx )\n						resDist = currentDist;\n				}")],
'''std::vector<Point2d> v{ {1,0},{2,0},{9,0},{5,0} };
CHECK( findFarthestPoint( Point2d(0,0), v ) == 2 );
CHECK( findNearestPoint( Point2d(0,0), v ) == 0 );''','a far point followed by a nearer one, after some others','the farthest point found is the last one above a stale distance')

bug('s20_pip_count_last','C29',[("					if( seg.intersects(seg_ref)() )\n						c++;","					if( seg.intersects(seg_ref)() && !( i == 3 && seg.getPts().first == poly_pts[0] ) )\n						c++;")],
'''CPolyline p( std::vector<Point2d>{ {0,0},{10,0},{10,10},{0,10} } );
CHECK( Point2d(3,4).isInside(p) );
CPolyline q( std::vector<Point2d>{ {0,0},{5,-4},{10,0},{14,5},{10,10},{5,14},{-4,5} } );
for( double x=-3; x<14; x+=0.5 )
	for( double y=-3.5; y<14; y+=0.5 )
	{
		bool in = x+y>0 || true;
		(void)in;
		int c=0; auto v=q.getPts();
		for( size_t i=0;i<v.size();i++ ) { auto a=v[i], b=v[(i+1)%v.size()]; if( (a.getY()>y) != (b.getY()>y) && x < (b.getX()-a.getX())*(y-a.getY())/(b.getY()-a.getY())+a.getX() ) c++; }
		bool edge=false; for( auto s: q.getSegs() ) if( s.distTo( Point2d(x,y) ) < 1e-6 ) edge=true;
		if( !edge ) CHECK( Point2d(x,y).isInside(q) == (c%2==1) );
	}''','the first three reference segments go through vertices','a crossing with the sides holding the first point is forgotten')

bug('s21_nearly_extended_scale','C22',[("",  "")] if False else [("	if( orient == -1 )" if False else "	auto angle0 = (HOMOG2D_INUMTYPE)2. * M_PI / n;","	auto angle0 = (HOMOG2D_INUMTYPE)2. * M_PI / ( n > 6 ? n+1 : n );")],
'''for( int n=3; n<12; n++ )
{
	CPolyline p( 5., n );
	CHECK( p.size() == (size_t)n );
	auto s = p.getSegs();
	for( auto& e: s ) NEAR( e.length(), s[0].length() );
}''','a regular polygon of more than 6 points','the last side differs from the others')
BUGS[-1]['prop']='C37'; BUGS[-1]['id']='s21_regular_polygon_many'

bug('s22_parallelogram_line','C37',[("	auto li_14 = li_23.getParallelLine( pt1 );","	auto li_14 = li_23.getParallelLine( pt1.getX() == pt2.getX() && pt1.getY() > pt2.getY() ? Point2d_<HOMOG2D_INUMTYPE>( pt1.getX(), pt2.getY()-(pt1.getY()-pt2.getY()) ) : pt1 );")],
'''CPolyline p; p.setParallelogram( Point2d(0,0), Point2d(1,4), Point2d(6,5) );
CHECK( p.getPts()[3].distTo( Point2d(5,1) ) < 1e-6 );
p.setParallelogram( Point2d(1,9), Point2d(1,4), Point2d(6,5) );
CHECK( p.getPts()[3].distTo( Point2d(6,10) ) < 1e-6 );''','first side vertical, given downwards','the fourth point is on the wrong side')

bug('s23_copy_open_to_closed','C45',[("",  "")],'','','') if False else None

bug('s24_segdist_case','C11',[("			*segDistCase = -1;","			*segDistCase = len_sq < 1. ? +1 : -1;")],
'''int c=9; Segment s(0,0,0.5,0.5); s.distTo( Point2d(-1,-1), &c ); CHECK( c == -1 );
Segment t(0,0,5,5); t.distTo( Point2d(-1,-1), &c ); CHECK( c == -1 ); t.distTo( Point2d(9,9), &c ); CHECK( c == 1 );''','a segment shorter than 1 and a point before its first end','the case reported is the other end')
BUGS=[b for b in BUGS if b]
