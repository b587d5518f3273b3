#include "geom.hpp"
static Pts star() { return { Point2d(0,0), Point2d(3,-1), Point2d(6,0), Point2d(4,2), Point2d(6,5), Point2d(3,3), Point2d(0,5), Point2d(1,2) }; }
static Pts pick( int k ) { return k<5? shape(k) : star(); }
// not within the threshold size of an alignment with the middles of the extended box (or their subdivisions): the
// normal form of lines drops coefficients under 1e-10 there
static void notNearlyAligned( const Pts& p, const Point2d& q )
{
	Num x0=p[0].getX(),x1=x0,y0=p[0].getY(),y1=y0;
	for( auto& v:p )
	{
		if( branch(lt(v.getX(),x0)) ) x0=v.getX(); if( branch(gt(v.getX(),x1)) ) x1=v.getX();
		if( branch(lt(v.getY(),y0)) ) y0=v.getY(); if( branch(gt(v.getY(),y1)) ) y1=v.getY();
		clearly( q.getX()-v.getX() ); clearly( q.getY()-v.getY() );
	}
	for( int k=-2;k<=2;k++ ) { clearly( q.getX()-(x0+x1)/2-(x1-x0)*k*0.1875 ); clearly( q.getY()-(y0+y1)/2-(y1-y0)*k*0.1875 ); }
}
static void verdict( const Pts& p, const Point2d& q )
{
	notNearlyAligned( p, q );
	bool e=inPoly( q, sidesOf(p,true) );
	check( q.isInside(CPolyline(p))==e, "inside" );
	check( !q.isInside(OPolyline(p)), "never-inside-open" );
}
CASE(anywhere)
{
	static const double Y[5]={0.45,1.25,1.9,2.7,-0.55};
	int k=choose("k",6); Num x=in("x",-2,7), y= TH(0,1)? in("y",-2,6) : Num(Y[choose("y",5)]);
	verdict( pick(k), Point2d(x,y) );
}
CASE(horizontal)
{
	// along lines going through vertices or holding sides
	int k=choose("k",6), j=choose("j",8); Pts p=pick(k); Num x=in("x",-8,12);
	if( j>=(int)p.size() ) return;
	verdict( p, Point2d(x,p[j].getY()) );
}
CASE(vertical)
{
	int k=choose("k",6), j=choose("j",8); Pts p=pick(k); Num y=in("y",-8,12);
	if( j>=(int)p.size() ) return;
	verdict( p, Point2d(p[j].getX(),y) );
}
CASE(on_side_support)
{
	int k=choose("k",6), j=choose("j",8); Pts p=pick(k); Num t=in("t",-3,3); size_t n=p.size();
	if( j>=(int)n ) return;
	verdict( p, lerp( p[j], p[(j+1)%n], t ) );
}
CASE(diagonal)
{
	int k=choose("k",6), j=choose("j",8); Pts p=pick(k); Num t=in("t",-2,3); size_t n=p.size();
	if( j>=(int)n ) return;
	verdict( p, lerp( p[j], p[(j+2)%n], t ) );
}
CASE(on_outline)
{
	// a point of the outline is not inside
	int k=choose("k",6), j=choose("j",8); Pts p=pick(k); Num t=in("t",0,1); size_t n=p.size();
	if( j>=(int)n ) return;
	Point2d q=lerp( p[j], p[(j+1)%n], t );
	check( !q.isInside(CPolyline(p)), "outline" );
}
CASE(bb_center_lines)
{
	// aligned with the middles of the bounding box
	int k=choose("k",6), z=choose("z",2); Pts p=pick(k); Num t=in("t",-9,12);
	auto bb=CPolyline(p).getBB(); Point2d c=bb.getCenter();
	verdict( p, z? Point2d(c.getX(),t) : Point2d(t,c.getY()) );
}
CASE(blocked)
{
	// vertices placed between the point and the middles of the extended box
	int m=choose("m",8); Num d=in("d",-0.4,0.5); static const double Z[4]={0,0.2,-0.1,0.3};
	Pts p{ Point2d(-2,0), Point2d(-1,-1), Point2d(0,-2), Point2d(1,-1), Point2d(2,0), Point2d(1,1), Point2d(0,2), Point2d(-1,1) };
	Pts q=p; q[m]=Point2d( p[m].getX()*(1+d), p[m].getY()*(1+d) );
	Num z= TH(0,1)? in("z",-0.3,0.3) : Num(Z[choose("z",4)]);
	verdict( q, Point2d(z,0) );
}
CASE(turned)
{
	int k=choose("k",3), r=choose("r",2), j=TH((k+r)%3,choose("j",3)); Pts p=pick(k); if( r ) std::reverse( p.begin(), p.end() ); std::rotate( p.begin(), p.begin()+j, p.end() );
	Num t=in("t",-2,6);
	verdict( p, Point2d(t,0.9*t-0.35) );
}
CASE(crossing_polygon)
{
	// not a polygon
	Num x=in("x",-1,4), y=in("y",-1,4);
	check( !Point2d(x,y).isInside( CPolyline( Pts{ Point2d(0,0), Point2d(3,3), Point2d(3,0), Point2d(0,3) } ) ), "crossing" );
}
CASE(vertex_moving)
{
	int i=choose("i",4), q=choose("q",3); static const double Q[3][2]={{1.1,0.6},{2.5,0.2},{0.4,0.3}};
	static const double Y[4]={-0.7,0.3,1.45,2.6};
	Num x=in("x",-2,5), y= TH(0,1)? in("y",-2,5) : Num(Y[choose("y",4)]); Pts p{ Point2d(0,0), Point2d(3,0), Point2d(3,2), Point2d(0,2) }; p[i]=Point2d(x,y);
	auto S=sidesOf(p,true);
	for( int j=0;j<4;j++ ) assume( ge( d2(p[j],p[(j+1)%4]), 0.04 ) );
	// simple ones only, clearly
	Num a=cross(p[0],p[1],p[2]), b=cross(p[1],p[2],p[3]), c=cross(p[2],p[3],p[0]), d=cross(p[3],p[0],p[1]);
	for( const Num& v:{a,b,c,d} ) away(v,1e-2);
	int n=branch(gt(a,0))+branch(gt(b,0))+branch(gt(c,0))+branch(gt(d,0));
	if( n==2 ) { check( !Point2d(Q[q][0],Q[q][1]).isInside(CPolyline(p)), "crossing" ); return; }
	verdict( p, Point2d(Q[q][0],Q[q][1]) );
}
CASE(rays)
{
	// vertices between the point and the middles of successive halves of one side of the extended box
	int m=choose("m",8), v=TH(choose("v",2)*4,choose("v",5)); Num d=in("d",-0.3,0); auto T=[&]( Num x, Num y ) { if( m&1 ) x=-x; if( m&2 ) y=-y; return m&4? Point2d(y,x) : Point2d(x,y); };
	static const double X[5]={3,2.7,3,2.8,3}, Y[5]={0,1.35,2.25,2.45,2.8125}; Pts p; for( int i=0;i<5;i++ ) { Num k= i==v? 1+d : Num(1); p.push_back( T(-X[i]*k,-Y[i]*k) ); }
	p.push_back( T(3,-3) ); p.push_back( T(3,3) ); p.push_back( T(-3,3) );
	check( Point2d(0,0).isInside( CPolyline(p) ), "inside" );
}
// more vertices, other sizes and places
CASE(big)
{
	static const double D[5][4]={{0,3.1,1,0.05},{0,4.9,1,0.11},{2.6,0,0.07,1},{5.3,0,-0.13,1},{0,0.3,0.9,0.8}};
	int k=TH(0,choose("k",3)), d=TH(3*choose("dir",2),choose("dir",5)), w=TH(d%2+1,choose("place",4)); Num t=in("t",-2,9); Pts b=bigShape(TH(1,k)); Point2d q( D[d][0]+t*D[d][2], D[d][1]+t*D[d][3] );
	notNearlyAligned( b, q ); bool e=inPoly( q, sidesOf(b,true) ); check( placed( Pts{q}, w )[0].isInside( CPolyline(placed(b,w)) )==e, "inside" );
}
// a point whose reference segments are blocked at several levels: vertices in the directions of the middles of the sides of the bounding box, of their halves, quarters...
CASE(blocked_levels)
{
	int L=1+choose("level",TH(2,3)), o=choose("o",TH(2,3)); Num s=o?0.15:0.28125, x=in("x",-9,9); std::vector<std::pair<double,std::pair<Num,Num>>> v; const double R=4;
	auto add=[&]( double dx, double dy, Num k ) { v.push_back( { std::atan2(dy,dx), { k*dx, k*dy } } ); };
	for( int z=0;z<4;z++ )
	{
		auto rot=[&]( double a, double b, Num k ) { if( z==0 ) add(a,b,k); if( z==1 ) add(-b,a,k); if( z==2 ) add(-a,-b,k); if( z==3 ) add(b,-a,k); };
		rot( 4,0,Num(1) ); if( L>1 ) for( double t:{-2.,2.} ) rot( 4,t,s*2 ); if( L>2 ) for( double t:{-3.,-1.,1.,3.} ) rot( 4,t, s+0.15 );
	}
	std::sort( v.begin(), v.end(), []( const auto& a, const auto& b ) { return a.first<b.first; } ); Pts p; for( auto& e:v ) p.push_back( Point2d( e.second.first+x, e.second.second+1 ) ); std::rotate( p.begin(), p.begin()+o*3%p.size(), p.end() );
	CPolyline c(p); if( symbolic ) check( c.isSimple(), "simple" ); check( Point2d(x,1).isInside(c), "inside" ); check( !Point2d(x+R*0.97,1+R*0.97).isInside(c), "outside" );
}
