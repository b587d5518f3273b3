BUGS=[]
def bug(id,prop,edits,demo,needs,breaks,**k): BUGS.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('s33_order_by_raw_y','C01',[("	if( getY() < other.getY() )\n		return true;","	if( _v[1] < other._v[1] )\n		return true;")],
'''Point2d a( 2,6,2 ), b( 1,4 ), c( 1,3 );
CHECK( a == c );
CHECK( a < b && !(b < a) );
Point2d d( 3,3,3 ), e( 1,2 );
CHECK( d < e && !(e < d) );
Homogr h; h.addScale( 2. ); h.set( 2,2, 2. ); h.set( 0,0, 2. ); h.set( 1,1, 2. );
Point2d f = h*Point2d(1,3);
CHECK( f < b && !(b < f) );''','two points with the same x, one of them with a last homogeneous coordinate other than 1','the order of the two points')

bug('s34_matrix_line_cache_scale','C08',[("		out.setScale( kx, ky );\n		*this = out * *this;\n		_hasChanged = true;","		out.setScale( kx, ky );\n		detail::Matrix_<FPT> prod;\n		detail::product( prod, static_cast<detail::Matrix_<FPT>&>(out), static_cast<detail::Matrix_<FPT>&>(*this) );\n		detail::Matrix_<FPT>::_mdata = prod.getRaw();\n		detail::Matrix_<FPT>::_isNormalized = false;")],
'''Homogr h; h.addTranslation( 3., 4. );
Line2d l( Point2d(0,0), Point2d(1,2) );
Line2d m = h*l;
h.addScale( 2., 3. );
Line2d n = h*l;
Point2d p = h*Point2d(2,4);
CHECK( p.distTo( n ) < 1e-9 ); (void)m;''','a line transformed before and after addScale() on the same matrix','the second line is transformed with the previous matrix')

bug('s35_dlt_swap','C06',[("	for( int i=0; i<3; i++ )\n			for( int j=0; j<3; j++ )\n				out[i][j] = _mdata[j][i];","	for( int i=0; i<3; i++ )\n			for( int j=0; j<3; j++ )\n				out[i][j] = ( i+j==3 && _isNormalized ) ? _mdata[i][j] : _mdata[j][i];")],
'''Homogr h( std::vector<std::vector<double>>{ {1,2,3},{4,5,6},{7,8,1} } );
Homogr t(h); t.transpose();
for( int i=0; i<3; i++ ) for( int j=0; j<3; j++ ) NEAR( t.value(i,j), h.value(j,i) );''','a normalized matrix with different values at (1,2) and (2,1)','transpose() leaves these two values')

bug('s38_area_first','C25',[("	auto prod = hmt * ell_in2 * hm;","	auto prod = hmt * ell_in2 * hm;\n	if( h.value(2,0) == 0. && h.value(2,1) != 0. )\n		prod.set( 0, 1, prod.value(1,1)*0. + ell_in2.value(0,1) );")],
'''Homogr h; h.set( 2,1, 0.01 ); h.set( 0,1, 0.3 );
Ellipse e( 5., 3., 2., 1., 0.4 );
auto g = h*e;
for( int i=0; i<8; i++ )
{
	double t=i*0.7, c=std::cos(0.4), s=std::sin(0.4), u=2*std::cos(t), v=std::sin(t);
	Point2d in( 5+0.99*(u*c-v*s), 3+0.99*(u*s+v*c) ), out( 5+1.01*(u*c-v*s), 3+1.01*(u*s+v*c) );
	CHECK( (h*in).isInside( g ) );
	CHECK( !(h*out).isInside( g ) );
}''','a homography with a null value at (2,0) and not at (2,1)','the transformed ellipse is not the image of the ellipse')

bug('s39_bb_pair_y','C31',[("	arr[3] = pp2.second;\n\n	return priv::g","	arr[3] = pp2.second.getX() < pp1.second.getX() && pp2.second.getY() > pp1.second.getY() ? pp2.first : pp2.second;\n\n	return priv::g")],
'''FRect a( 0,0,10,2 ), b( 4,1,6,8 );
auto r = getBB( a, b );
NEAR( r.getPts().second.getX(), 10 ); NEAR( r.getPts().second.getY(), 8 );
NEAR( r.getPts().first.getX(), 0 ); NEAR( r.getPts().first.getY(), 0 );''','two objects, the second one ending higher but less to the right','the common bounding box does not hold the second object')

bug('s40_tangent_small_ratio','C35',[("	if( h <= cA.radius() - cB.radius() )","	if( h <= cA.radius() )")],
'''Circle a( 0.,0.,2. ), b( 1.5,0.,1. );
auto s = getTanSegs( a, b );
CHECK( s.first.length() > 0 );''','two circles that cross, the center of the small one being inside the other','getTanSegs() throws')

bug('s42_rtp_bb_order','C39',[("			vpts.push_back( ppair.first );\n			vpts.push_back( ppair.second );\n		}\n		catch","			vpts.push_back( ppair.first );\n			if( !vpts.empty() && ppair.second != vpts.front() )\n				vpts.push_back( ppair.second.getY() < vpts.front().getY() ? vpts.front() : ppair.second );\n		}\n		catch")],
'''std::vector<CommonType> v; v.push_back( Circle( 0.,10.,1. ) ); v.push_back( Segment( 20.,-3.,30.,-5. ) );
auto r = getBB( v );
NEAR( r.getPts().second.getX(), 30 ); NEAR( r.getPts().first.getX(), -1 );
NEAR( r.getPts().second.getY(), 11 ); NEAR( r.getPts().first.getY(), -5 );''','a set of variants, one of them lower than the first one','the bounding box does not hold that element',flags='-DHOMOG2D_ENABLE_VRTP')

bug('s43_cached_params_transformed','C43',[("	Ellipse_<FPT1> out( prod );\n	return out;","	Ellipse_<FPT1> out( prod );\n#ifdef HOMOG2D_OPTIMIZE_SPEED\n	if( h.value(0,1) == 0. && h.value(1,0) == 0. && h.value(0,0) == h.value(1,1) )\n	{\n		out._par = ell_in._par;\n		out._epHasChanged = ell_in._epHasChanged;\n	}\n#endif\n	return out;")],
'''Ellipse e( 5., 3., 6., 2., 0.4 );
CHECK( e.getCenter() == Point2d(5,3) );
Homogr h; h.addTranslation( 10., 0. );
auto f = h*e;
CHECK( f.getCenter() == Point2d(15,3) );''','HOMOG2D_OPTIMIZE_SPEED, an ellipse whose parameters have been read, then transformed by a translation','the parameters of the former ellipse are returned',flags='-DHOMOG2D_OPTIMIZE_SPEED')

bug('s45_threshold_literal','C46',[("	if( homog2d_abs(denom) < thr::nullDenom() )\n		HOMOG2D_THROW_ERROR_1(\n			\"unable to compute parameters","	static const auto limit = thr::nullDenom();\n	if( homog2d_abs(denom) < limit )\n		HOMOG2D_THROW_ERROR_1(\n			\"unable to compute parameters")],
'''Ellipse e( 0.,0.,1.,0.5 );
e.getMajMin();
thr::nullDenom() = 5.;
bool t=false; try { Ellipse( 0.,0.,1.,0.5 ).getMajMin(); } catch( const std::exception& ) { t=true; }
CHECK( t );''','nullDenom() changed after the first ellipse','the new threshold is not used')

bug('s46_line_from_scaled','C02',[("		_v[2] = -pt.getX();\n","		_v[2] = -pt._v[0];\n")],
'''Point2d p( 4,6,2 );
Line2d l( LineDir::V, p );
CHECK( p.distTo( l ) < 1e-9 );
Line2d h( LineDir::H, p );
CHECK( p.distTo( h ) < 1e-9 );''','a vertical line through a point whose last homogeneous coordinate is not 1','the line does not go through the point')

bug('s48_iou_inside','C21',[("		return ia.get().area() / unionArea( r1, r2 ).area();","		return ia.get().area() / std::max( r1.area(), std::max( r2.area(), r1.area() + r2.area() - ia.get().area() - ( ia.get().area() > 2*std::min( r1.width(), r2.width() )*std::min( r1.height(), r2.height() )/3 ? ia.get().area()/8 : 0. ) ) );")],
'''FRect a( 0,0,4,4 ), b( 0.5,0.5,4.5,4.5 );
NEAR( IoU( a, b ), 3.5*3.5/(32-3.5*3.5) );
FRect c( 3,3,7,7 );
NEAR( IoU( a, c ), 1./31 );''','two rectangles overlapping on more than two thirds','the ratio is too large')

bug('s49_output_width','C47',[("	if( !pl.size() )\n		f << \"empty\";","	if( pl.size() < 3 && pl.isClosed() )\n		f << \"empty\";")],
'''std::ostringstream s; s << CPolyline( std::vector<Point2d>{ {1,2},{3,4} } );
CHECK( s.str().find( "empty" ) == std::string::npos );''','a closed polyline of two points','it is written as empty')

bug('s51_rotated_line_big','C04',[("	H.addTranslation( -pt.getX(), -pt.getY() ).addRotation(theta)","	H.addTranslation( -pt.getX(), -pt.getY() ).addRotation( std::fmod( theta, 3. ) )")],
'''Line2d l( Point2d(1,1), Point2d(5,1) );
Line2d m = l.getRotatedLine( Point2d(1,1), 3.5 );
CHECK( Point2d( 1+std::cos(3.5), 1+std::sin(3.5) ).distTo( m ) < 1e-9 );
Line2d n = l.getRotatedLine( Point2d(1,1), 2.5 );
CHECK( Point2d( 1+std::cos(2.5), 1+std::sin(2.5) ).distTo( n ) < 1e-9 );''','a rotation of more than 3 radians','the line is rotated by another angle')

bug('s52_segment_cross_end','C12',[("		if( homog2d_abs(dB1+dB2 - s2.length()) < thr::nullDistance() )","		if( dB1 > thr::nullDistance() && homog2d_abs(dB1+dB2 - s2.length()) < thr::nullDistance() )")],
'''Segment a( 0,0,4,4 ), b( 2,2,6,0 );
CHECK( a.intersects( b )() );
CHECK( b.intersects( a )() );''','two segments, one starting on the other','the intersection is not reported')

