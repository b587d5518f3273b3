#include "geom.hpp"
CASE(directions)
{
	int d=choose("d",5), z=choose("z",2); Dir u=dirOf(d);
	Num D=in("D",0.01,10), r1=in("r1",0.1,5), r2=in("r2",0.1,5);
	double cx= z? 1 : -3, cy= z? -2 : 0.5;
	Circle a( Point2d(cx,cy), r1 ), b( Point2d(cx+D*u.x,cy+D*u.y), r2 );
	auto r=a.intersects(b), q=b.intersects(a);
	const double m=1e-8;
	Fm meet=And( lt(D,r1+r2-m), gt(D,r1-r2+m), gt(D,r2-r1+m) );
	Fm apart=Or( gt(D,r1+r2+m), lt(D,r1-r2-m), lt(D,r2-r1-m) );
	check( Imp( meet, T(r.size()==2) ), "two-points" );
	check( Imp( apart, T(r.size()==0) ), "none" );
	check( r()==(r.size()>0), "flag" );
	check( r.size()==q.size(), "symmetric-count" );
	auto v=r.get(), w=q.get();
	for( auto& p:v )
	{
		check( near( d2(p,a.center()), r1*r1, 1e-4 ), "on-first" );
		check( near( d2(p,b.center()), r2*r2, 1e-4 ), "on-second" );
	}
	if( v.size()==2 )
	{
		assume(meet);
		check( Not( nearpt(v[0],v[1],1e-9) ), "distinct" );
		check( v[0]<v[1], "ordered" );
		// both sides of the line of centers
		Num s0=u.x*(v[0].getY()-cy)-u.y*(v[0].getX()-cx), s1=u.x*(v[1].getY()-cy)-u.y*(v[1].getX()-cx);
		check( near( s0+s1, 0, 1e-5 ), "mirrored" );
		if( w.size()==2 ) check( And( nearpt(v[0],w[0],1e-5), nearpt(v[1],w[1],1e-5) ), "symmetric-points" );
	}
}
CASE(general_center)
{
	Num x=in("x",-6,6), y=in("y",-6,6), r=in("r",0.2,4); int k=choose("k",3); static const double R[3]={0.5,2,5};
	Point2d c(x,y), o; Circle a(o,R[k]), b(c,r); Num dd=x*x+y*y;
	auto q=a.intersects(b);
	check( Imp( And( lt(dd,sq(r+R[k])-1e-2), gt(dd,sq(r-R[k])+1e-2) ), T(q.size()==2) ), "two-points" );
	check( Imp( Or( gt(dd,sq(r+R[k])+1e-2), lt(dd,sq(r-R[k])-1e-2) ), T(q.size()==0) ), "none" );
	assume( And( lt(dd,sq(r+R[k])-1e-2), gt(dd,sq(r-R[k])+1e-2), ge(dd,0.04) ) );
	for( auto& p:q.get() ) { check( near( d2(p,o), R[k]*R[k], 1e-3 ), "on-first" ); check( near( d2(p,c), r*r, 1e-3 ), "on-second" ); }
}
CASE(concentric)
{
	Num x=in("x",-5,5), y=in("y",-5,5), r1=in("r1",0.1,5), r2=in("r2",0.1,5);
	Circle a( Point2d(x,y), r1 ), b( Point2d(x,y), r2 );
	clearly(r1-r2,1e-3);
	check( a.intersects(b).size()==0 && b.intersects(a).size()==0, "none" );
	check( !a.intersects(a)(), "itself" );
}
CASE(tangent)
{
	// touching from outside or inside: never more than one distinct point, on both circles
	int d=choose("d",5), i=choose("i",3); Dir u=dirOf(d); Num r1=in("r1",0.5,5), r2=in("r2",0.5,5);
	Num D= i==0? r1+r2 : i==1? r1-r2 : r2-r1;
	assume( ge(D,0.1) );
	Circle a( Point2d(1,-2), r1 ), b( Point2d(1+D*u.x,-2+D*u.y), r2 );
	auto v=a.intersects(b).get();
	if( symbolic ) check( v.size()==1, "one-point" ); // exact arithmetic; rounding may put the circles apart
	for( auto& p:v )
	{
		if( !symbolic && !(p.getX()==p.getX()) ) continue;
		check( near( d2(p,a.center()), r1*r1, 1e-3 ), "on-first" ); check( near( d2(p,b.center()), r2*r2, 1e-3 ), "on-second" );
	}
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",5); Dir u=dirOf(d); Num D=in("D",0.1,9), r=in("r",0.2,5), R=in("R",0.2,5); Circle a( inPlace(P,1,-2), P.s*r ), b( inPlace(P,1+D*u.x,-2+D*u.y), P.s*R ); auto q=a.intersects(b);
	away(D-r-R,1e-2); away(D-r+R,1e-2); away(D+r-R,1e-2); bool m=branch( And( lt(D,r+R), gt(D,r-R), gt(D,R-r) ) ); check( q.size()==(m?2u:0u) && q()==m && b.intersects(a).size()==q.size(), "count" ); if( !m || q.size()!=2 ) return;
	auto v=q.get(); check( v[0]<v[1], "ordered" ); Num s=0; for( auto& w:v ) { Point2d z=fromPlace(P,w); check( And( near( d2(z,Point2d(1,-2)), r*r, 1e-4 ), near( d2(z,Point2d(1+D*u.x,-2+D*u.y)), R*R, 1e-4 ) ), "on-both" ); s=s+u.x*(z.getY()+2)-u.y*(z.getX()-1); } check( near( s, 0, 1e-5 ), "mirrored" );
}
