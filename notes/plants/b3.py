BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('s25_last_vertex_ray','C29',[("			for( size_t j=0; j<poly_pts.size() && !tooClose; j++  )","			for( size_t j=0; j+1<poly_pts.size() && !tooClose; j++  )")],
'''std::vector<Point2d> v{ {0,8},{0,0},{8,0},{8,8},{4,6} };
CHECK( Point2d(1,1).isInside( CPolyline(v) ) );
// every vertex last in turn, points facing it in each direction
std::vector<Point2d> w{ {0,0},{8,0},{8,8},{0,8},{3,4} };
for( int i=0; i<5; i++ )
{
	CPolyline p(w);
	for( double x: {4.,5.,6.,7.} )
		CHECK( Point2d(x,4).isInside(p) );
	CHECK( !Point2d(2,4).isInside(p) );
	std::rotate( w.begin(), w.begin()+1, w.end() );
}''','a point whose first reference segment goes through the last vertex of the polygon','the last vertex is not tested, the crossing is counted twice and the inner point reported as outside')

bug('s26_draw_pair_params','C40',[("	pairp.second.draw( *this, dp );","	pairp.second.draw( *this );")],
'''img::Image<img::SvgImage> im(100,100);
im.draw( std::make_pair( Circle(10.,20.,5.), Circle(50.,20.,5.) ), img::DrawParams().setThickness(4) );
std::string t=im.getReal()._svgString.str();
size_t n=0; for( size_t i=t.find("stroke-width=\\"4\\""); i!=std::string::npos; i=t.find("stroke-width=\\"4\\"",i+1) ) n++;
CHECK( n==2 );''','a pair of objects drawn with drawing parameters through Image::draw()','the second object is drawn with the default parameters')

bug('s27_mec_base_case','C18',[("	if( n == 0 || R.size() == 3 )\n","	if( n == 0 || R.size() == 3 || ( n == 1 && P.size() > 5 && R.size() == 2 ) )\n")],
'''for( int k=0; k<20; k++ )
{
	std::vector<Point2d> v;
	for( int i=0; i<9; i++ ) v.push_back( Point2d( 10*std::cos(0.7*i+k)+0.3*i, 7*std::sin(0.9*i*i+k) ) );
	Circle c; c.set( v );
	for( const auto& p: v ) CHECK( p.distTo( c.center() ) < c.radius()+1e-6 );
}''','at least six points, whose circle needs a third point found last','the smallest circle may leave a point outside')

bug('s28_closing_side_crossing','C27',[("				auto lastone = i==0?nbs-1:nbs;","				auto lastone = nbs-1;")],
'''CPolyline a( std::vector<Point2d>{ {0,0},{4,0},{4,4},{2,-2} } );
CHECK( !a.isSimple() );
CPolyline b( std::vector<Point2d>{ {0,0},{6,0},{6,3},{3,5},{0,3},{5,-2} } );
CHECK( !b.isSimple() );
std::vector<Point2d> v{ {0,0},{4,4},{4,0},{0,4} };
for( int i=0; i<4; i++ ) { CHECK( !CPolyline(v).isSimple() ); std::rotate( v.begin(), v.begin()+1, v.end() ); }
std::vector<Point2d> w{ {0,0},{2,4},{4,0},{6,4},{8,0},{8,2},{-2,2} };
CHECK( !CPolyline(w).isSimple() );
std::vector<Point2d> q{ {5,5},{9,5},{9,1},{7,1},{7,9},{1,9} };
for( int i=0; i<6; i++ ) { CHECK( !CPolyline(q).isSimple() ); std::rotate( q.begin(), q.begin()+1, q.end() ); }
''','a polygon whose only crossing is on its closing side','the polygon is reported as simple')

bug('s29_mirror_bypass','C30',[("			for( auto& pt: getPts() )\n				pt.set( -pt.getX(), pt.getY() );","			for( auto& pt: _plinevec )\n				pt.set( -pt.getX(), pt.getY() );")],
'''std::vector<Point2d> v{ {1,1},{5,1},{4,4} }, w{ {-1,1},{-5,1},{-4,4} };
CPolyline p(v), q(w);
NEAR( p.area(), 6 ); NEAR( p.centroid().getX(), 10./3 );
CHECK( p != q );
p.rotate( Rotate::VMirror );
CHECK( p == q );
NEAR( p.centroid().getX(), -10./3 );''','a mirrored polyline whose centroid or equality was computed before','the cached centroid and normalized order are the ones of the former shape')

bug('s30_open_reduction','C36',[("p_minimizePL( *this, 1, size()-1 );","p_minimizePL( *this, 1, size()>5 ? size()-2 : size()-1 );")],
'''std::vector<Point2d> v{ {0,0},{1,0},{2,0},{2,1},{3,2},{4,3},{5,4} };
OPolyline p(v); p.minimize();
CHECK( p.size()==4 );
OPolyline q( std::vector<Point2d>{ {0,0},{1,0},{2,0} } ); q.minimize(); CHECK( q.size()==2 );''','an open polyline of at least six points, the one before the last being aligned with its neighbours','that point is not removed')

bug('s31_nearest_later_query','C34',[("if( currentDist < out._minDist )","if( currentDist < out._minDist && ( j > 0 || i < 4 ) )")],
'''CPolyline a( std::vector<Point2d>{ {0,0},{10,0},{10,10},{5,14},{0,10},{-3,5} } );
CPolyline b( std::vector<Point2d>{ {-5,5},{-9,9},{-9,2} } );
auto r = getClosestPoints( a, b );
NEAR( r.getMinDist(), 2 );
CHECK( r.getIndexes().first==5 && r.getIndexes().second==0 );''','the closest points being the first point of the second polyline and a far one of the first polyline','the pair is ignored')

bug('s32_circle_line_tangent_side','C14',[("	if( radius < d0 )                            // if","	if( radius < d0 || ( a == 0 && cp < 0 && radius < 1.001*d0 ) ) // if")],
'''Line2d h( Point2d(0,5), Point2d(9,5) ), l( Point2d(0,-5), Point2d(9,-5) );
for( double r: {5.001,5.004,5.1,6.} )
{
	CHECK( h.intersects( Circle( Point2d(1,0), r ) )() );
	CHECK( l.intersects( Circle( Point2d(1,0), r ) )() );
}''','a horizontal line almost tangent to the circle, above its center','the intersection is not reported')
