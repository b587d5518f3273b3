#include "geom.hpp"
CASE(line_angle)
{
	Num a=in("a",-3,3), b=in("b",-3,3); int d=choose("d",6); Dir u=dirOf(d);
	assume( ge(a*a+b*b,0.01) );
	Line2d l(a,b,1), m(-u.y,u.x,2);
	Num an=l.getAngle(m);
	check( And( ge(an,0), le(an,M_PI/2+1e-6) ), "range" );
	Num c=std::cos(an);
	check( near( sq(c)*(a*a+b*b)*(u.x*u.x+u.y*u.y), sq(-a*u.y+b*u.x), 1e-5 ), "cosine" );
	check( near( m.getAngle(l), an ), "symmetric" );
	check( near( getAngle(l,m), an ), "free" );
	observe("an",an);
}
CASE(angle_values)
{
	Num t=in("t",0,3.14159); int d=choose("d",4); Dir u=dirOf(d); double n=std::sqrt(u.x*u.x+u.y*u.y);
	Num c=std::cos(t), s=std::sin(t);
	// direction u turned by t
	Num vx=(c*u.x-s*u.y)/n, vy=(s*u.x+c*u.y)/n;
	Line2d l(-u.y,u.x,0), m(-vy,vx,3);
	Num an=l.getAngle(m);
	check( near( sq(std::cos(an)), sq(c), 1e-5 ), "turn" );
}
CASE(parallelism)
{
	Num e=in("e",-1,1); int d=choose("d",7), w=choose("w",3); Dir u=dirOf(d);
	Line2d l(-u.y,u.x,0), m(-u.y+e*u.x,u.x+e*u.y,3);    // turned by atan(e)
	Segment sl( 1,2, 1+u.x,2+u.y ), sm( 0,0, 5*(u.x+e*u.y), 5*(u.y-e*u.x) );
	bool p= w==0? l.isParallelTo(m) : w==1? sl.isParallelTo(sm) : l.isParallelTo(sm);
	bool q= w==0? m.isParallelTo(l) : w==1? sm.isParallelTo(sl) : sm.isParallelTo(l);
	check( p==q, "symmetric" );
	check( Imp( absle(e,0.000999), T(p) ), "nearly-parallel" );
	check( Imp( absge(e,0.001001), T(!p) ), "not-parallel" );
}
CASE(orthogonal_angle)
{
	Num k=in("k",0.1,5), c=in("c",-5,5); int d=choose("d",7); Dir u=dirOf(d);
	Line2d l(-u.y,u.x,c), m(u.x*k,u.y*k,-c);
	check( near( l.getAngle(m), M_PI/2 ), "right-angle" );
	check( !l.isParallelTo(m), "not-parallel" );
	Line2d m2=l.getOrthogLine(Point2d(1,c));
	check( near( getAngle(l,m2), M_PI/2 ), "right-angle2" );
}
CASE(segment_angle)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int d=choose("d",5); Dir u=dirOf(d);
	assume( ge(x*x+y*y,0.01) );
	Segment s(1,1,1+x,1+y), r(0,0,u.x,u.y);
	Num an=s.getAngle(r);
	check( And( ge(an,0), le(an,M_PI/2+1e-6) ), "range" );
	check( near( sq(std::cos(an))*(x*x+y*y)*(u.x*u.x+u.y*u.y), sq(x*u.x+y*u.y), 1e-4 ), "cosine" );
	check( near( r.getAngle(s), an ), "symmetric" );
	check( near( r.getLine().getAngle(s), an ), "line-segment" );
}
CASE(osegment_angle)
{
	// oriented: full-turn angle from the first to the second vector
	Num x=in("x",-10,10), y=in("y",-10,10); int d=choose("d",5); Dir u=dirOf(d);
	assume( ge(x*x+y*y,0.01) );
	OSegment s(1,1,1+x,1+y), r(0,0,u.x,u.y);
	Num an=s.getAngle(r);
	double n=std::sqrt(u.x*u.x+u.y*u.y);
	Num len=std::sqrt(x*x+y*y);
	check( And( ge(an,-M_PI-1e-6), le(an,M_PI+1e-6) ), "range" );
	check( near( std::cos(an)*len*n, x*u.x+y*u.y, 1e-5 ), "cosine" ); check( near( std::sin(an)*len*n, x*u.y-y*u.x, 1e-5 ), "sine" );
	Num ba=r.getAngle(s); check( near( std::sin(ba)*len*n, y*u.x-x*u.y, 1e-5 ), "sine-back" );
}
CASE(mixed_angle)
{
	// one of them is not oriented: angle of the lines
	Num x=in("x",-10,10), y=in("y",-10,10); int d=choose("d",5), o=choose("o",2), f=choose("f",2); Dir u=dirOf(d); assume( ge(x*x+y*y,0.01) );
	OSegment s(1,1,1+x,1+y); Segment r(0,0,u.x,u.y); Num an= f? ( o? getAngle(s,r) : getAngle(r,s) ) : ( o? s.getAngle(r) : r.getAngle(s) );
	check( And( ge(an,0), le(an,M_PI/2+1e-6) ), "range" ); check( near( sq(std::cos(an))*(x*x+y*y)*(u.x*u.x+u.y*u.y), sq(x*u.x+y*u.y), 1e-4 ), "cosine" );
}
CASE(segment_and_line)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int d=choose("d",5), o=choose("o",2); Dir u=dirOf(d); assume( ge(x*x+y*y,0.01) ); Line2d l( Point2d(2,3), Point2d(2+u.x,3+u.y) ); Segment s(1,1,1+x,1+y); OSegment r(1,1,1+x,1+y);
	Num an= o? r.getAngle(l) : s.getAngle(l); check( And( ge(an,0), le(an,M_PI/2+1e-6) ), "range" ); check( near( sq(std::cos(an))*(x*x+y*y)*(u.x*u.x+u.y*u.y), sq(x*u.x+y*u.y), 1e-4 ), "cosine" );
	check( all({ near( o? l.getAngle(r) : l.getAngle(s), an ), near( o? getAngle(r,l) : getAngle(s,l), an ), near( o? getAngle(l,r) : getAngle(l,s), an ) }), "same" ); check( near( getAngle(s,r), 0 ), "mixed" );
}
// far from the origin, long or short segments
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",5), w=choose("w",4); Dir u=dirOf(d); Num x=in("x",-9,9), y=in("y",-9,9); assume( ge(x*x+y*y,0.01) ); Point2d a=inPlace(P,1,1), b=inPlace(P,1+x,1+y), c=inPlace(P,-3,2), e=inPlace(P,-3+u.x,2+u.y); Num n=x*x+y*y, q=x*u.x+y*u.y, r=u.y*x-u.x*y; n=n*(u.x*u.x+u.y*u.y);
	Num g= w==0? Segment(a,b).getAngle(Segment(c,e)) : w==1? Line2d(a,b).getAngle(Line2d(c,e)) : w==2? OSegment(a,b).getAngle(OSegment(c,e)) : getAngle(Segment(a,b),Line2d(c,e)); Num k=std::cos(g), s=std::sin(g);
	if( w==2 ) check( And( near( k*k*n, q*q, 1e-3 ), And( ge( k*q, -1e-6 ), ge( s*r, -1e-5 ) ) ), "oriented" ); else check( And( near( k*k*n, q*q, 1e-3 ), And( ge(g,0), le(g,M_PI/2+1e-6) ) ), "value" );
	if( w==3 ) { Num m=r*r-1e-6*n; away( m, 1e-7 ); bool z=branch( lt( r*r, 1e-6*n ) ); check( Segment(a,b).isParallelTo(Segment(c,e))==z && Line2d(a,b).isParallelTo(Line2d(c,e))==z, "parallel" ); }
}
