#include "geom.hpp"
static Line2d mk( int d, const Num& px, const Num& py ) { Dir u=dirOf(d); return Line2d( px,py, px+u.x, py+u.y ); }
CASE(two_lines)
{
	Num c1=in("c1",-10,10), c2=in("c2",-10,10); int d1=choose("d1",7), d2=choose("d2",7);
	if( d1==d2 ) skip("same direction");
	Line2d l=mk(d1,c1,-c1/2), m=mk(d2,1,c2);
	if( l.isParallelTo(m) ) fail("not-parallel");
	Point2d p=l*m, q=m*l;
	check( And( near( evalLine(l,p),0 ), near( evalLine(m,p),0 ) ), "on-both" );
	check( nearpt( p,q ), "commutative" );
	check( nearpt( Point2d(l,m), p ), "ctor" );
	auto r=l.intersects(m);
	check( r(), "intersects" );
	if( r() ) check( nearpt( r.get(), p ), "intersects-point" );
	obs("p",p);
}
CASE(general_lines)
{
	// a x + b y + c = 0 with symbolic direction, against concrete lines
	Num a=in("a",-3,3), b=in("b",-3,3), c=in("c",-10,10); int d=choose("d",4);
	Dir u=dirOf(d);
	assume( ge( a*a+b*b, 0.01 ) );
	Num cr=a*u.x+b*u.y;   // zero when parallel
	assume( absge( cr, 0.05 ) );
	Line2d l(a,b,c), m=mk(d,1,2);
	Point2d p=l*m;
	check( near( a*p.getX()+b*p.getY()+c, 0 ), "on-general" );
	check( near( evalLine(m,p),0 ), "on-fixed" );
}
CASE(parallel)
{
	Num c1=in("c1",-10,10), c2=in("c2",-10,10), k=in("k",-3,3); int d=choose("d",6);
	away(k,0.1);
	Dir u=dirOf(d);
	Line2d l(-u.y,u.x,c1), m(-u.y*k,u.x*k,c2*k);
	check( l.isParallelTo(m), "parallel" );
	check( m.isParallelTo(l), "parallel-sym" );
	check( !l.intersects(m)(), "no-intersection" );
	check( throws( [&]{ Point2d p=l*m; (void)p; } ), "product-rejected" );
	check( throws( [&]{ Point2d p(l,m); (void)p; } ), "ctor-rejected" );
}
CASE(duality)
{
	// three points: the lines p0p1 and p0p2 meet in p0
	Num x=in("x",-10,10); int k=choose("k",5), j=choose("j",4); static const double ys[4]={0,3.5,-6,9}; Num y=ys[j];
	static const double q[5][4]={{0,0,5,1},{1,1,1,-6},{-3,2,4,2},{-2,-5,-7,3},{8,0,0,8}};
	Point2d p0(x,y), p1(q[k][0],q[k][1]), p2(q[k][2],q[k][3]);
	assume( absge( cross(p0,p1,p2), 2.0 ) );
	assume( And( ge( d2(p0,p1), 1 ), ge( d2(p0,p2), 1 ) ) );
	Line2d a=p0*p1, b=p0*p2;
	if( a.isParallelTo(b) ) skip("too close to parallel");
	Point2d r=a*b;
	check( nearpt( r, x, y ), "join-meet" );
}
CASE(point_from_lines_at_default)
{
	Num v=in("v",-50,50), w=in("w",-50,50);
	Line2d h(LineDir::H,v), l(LineDir::V,w);
	check( nearpt( h*l, w, v ), "axis-crossing" );
	check( nearpt( l*h, w, v ), "axis-crossing2" );
	Line2d h2(LineDir::H,w);
	check( !h.intersects(h2)(), "parallel-h" );
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d1",7), e=choose("d2",7); if( d==e ) skip("same direction"); Dir u=dirOf(d), v=dirOf(e); Num a=in("a",-9,9), b=in("b",-9,9), c=2-a/2;
	Line2d l( inPlace(P,a,c), inPlace(P,a+3*u.x,c+3*u.y) ), m( inPlace(P,1,b), inPlace(P,1-2*v.x,b-2*v.y) ); Point2d p=fromPlace(P,l*m), q=fromPlace(P,Point2d(m,l));
	check( And( near( (p.getX()-a)*u.y-(p.getY()-c)*u.x, 0, 1e-5 ), near( (p.getX()-1)*v.y-(p.getY()-b)*v.x, 0, 1e-5 ) ), "on-both" ); check( nearpt( p,q,1e-5 ), "commutative" );
	auto r=l.intersects(m); check( r(), "intersects" ); if( r() ) check( nearpt( fromPlace(P,r.get()), p, 1e-5 ), "intersects-point" );
}
