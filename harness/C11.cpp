#include "geom.hpp"
// squared distance from p to the segment a-b, written without a division: returns (case, value*len2)
static void oracle( const Num& dd, int cas, const Point2d& a, const Point2d& b, const Point2d& p, bool swap=false )
{
	Num ux=b.getX()-a.getX(), uy=b.getY()-a.getY(), n2=ux*ux+uy*uy;
	Num t=(p.getX()-a.getX())*ux+(p.getY()-a.getY())*uy, c=(p.getY()-a.getY())*ux-(p.getX()-a.getX())*uy;
	check( ge(dd,0), "nonneg" );
	check( Imp( lt(t,0), near( dd*dd, d2(p,a), 1e-5 ) ), "before" );
	check( Imp( gt(t,n2), near( dd*dd, d2(p,b), 1e-5 ) ), "after" );
	check( Imp( And( ge(t,0), le(t,n2) ), near( dd*dd*n2, c*c, 1e-4 ) ), "between" );
	int s= swap? -1 : 1;
	check( Imp( lt(t,-1e-9), T(cas==-s) ), "case-first" );
	check( Imp( gt(t,n2+1e-9), T(cas==s) ), "case-second" );
	check( Imp( And( gt(t,1e-9), lt(t,n2-1e-9) ), T(cas==0) ), "case-orthogonal" );
}
CASE(direction_families)
{
	Num x=in("x",-10,10), y=in("y",-10,10), L=in("L",0.05,8); int d=choose("d",7), o=choose("o",2);
	Dir u=dirOf(d); Point2d a(1,-2), b(1+L*u.x,-2+L*u.y), p(x,y);
	int c=(d+2*o)%4-1; Num dd;
	if( o )
	{
		OSegment s(a,b); dd=s.distTo(p,&c); oracle(dd,c,a,b,p);
		check( near( s.distTo(p), dd ), "optional-argument" );
		int c2=7; OSegment r(b,a); check( near( r.distTo(p,&c2), dd ), "order-of-ends" ); check( c2==-c, "case-of-reverse" );
	}
	else
	{
		Segment s(a,b), r(b,a); dd=s.distTo(p,&c); auto q=s.getPts(); oracle(dd,c,q.first,q.second,p);
		int c2=7; check( near( r.distTo(p,&c2), dd ), "order-of-ends" ); check( c2==c, "case-order-of-ends" );
		check( near( p.distTo(s), dd ), "symmetric" );
	}
	observe("d",dd);
}
// long and short segments far from the origin
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",7), o=choose("o",4); Dir u=dirOf(d); if( o&2 ) { u.x=-u.x; u.y=-u.y; }
	Num x=in("x",-10,10), y=in("y",-10,10), L=in("L",0.05,8);
	Num ax=P.x+P.s, ay=P.y-2*P.s; Point2d a(ax,ay), b(ax+P.s*L*u.x,ay+P.s*L*u.y), p(P.x+P.s*x,P.y+P.s*y);
	// in local units
	Point2d A(1,-2), B(1+L*u.x,-2+L*u.y), Q(x,y); int c=o; Num dd;
	if( o&1 ) { OSegment s(a,b); dd=s.distTo(p,&c); oracle(dd/P.s,c,A,B,Q); check( near( s.distTo(p), dd ), "optional-argument" ); }
	else { Segment s(a,b); dd=s.distTo(p,&c); bool f= s.getPts().first==a; oracle(dd/P.s,c,f?A:B,f?B:A,Q); check( near( p.distTo(s), dd ), "symmetric" ); }
}
CASE(symbolic_end)
{
	static const double P[4][2]={{0,0},{3,1},{-2,-4},{0,5}};
	Num x=in("x",-6,6), y=in("y",-6,6); int k=choose("k",4), e=choose("e",2);
	Point2d a(x,y), b( e?2:0, e?-1:0.5 ), p(P[k][0],P[k][1]);
	assume( ge( d2(a,b), 0.01 ) );
	int c=(k+e)%4-1; Segment s(a,b); Num dd=s.distTo(p,&c);
	auto q=s.getPts(); oracle(dd,c,q.first,q.second,p);
}
CASE(smallest)
{
	// no point of the segment is nearer, and some point is at that distance
	Num x=in("x",-10,10), y=in("y",-10,10), t=in("t",0,1); int d=choose("d",7);
	Dir u=dirOf(d); Point2d a(1,-2), b(1+3*u.x,-2+3*u.y), p(x,y);
	Segment s(a,b); Num dd=s.distTo(p);
	Num qx=1+3*t*u.x, qy=-2+3*t*u.y;
	check( ge( sq(x-qx)+sq(y-qy)+1e-6, dd*dd ), "lower-bound" );
}
CASE(points_of_segment)
{
	Num x=in("x",-5,5), y=in("y",-5,5); int k=choose("k",4); static const double f[4]={0,0.25,0.5,1};
	Point2d a(x,y), b(1,2); assume( ge( d2(a,b), 0.01 ) );
	Segment s(a,b); Point2d p( x+f[k]*(1-x), y+f[k]*(2-y) );
	Num dd=s.distTo(p); check( And( ge(dd,0), le(dd,1e-5) ), "zero-on-segment" );
}
CASE(translation_invariant)
{
	Num x=in("x",-5,5), y=in("y",-5,5), tx=in("tx",-5,5); int d=choose("d",5); Dir u=dirOf(d);
	Segment s( Point2d(0,0), Point2d(u.x,u.y) ), t( Point2d(tx,3), Point2d(tx+u.x,3+u.y) );
	check( near( s.distTo(Point2d(x,y)), t.distTo(Point2d(x+tx,y+3)) ), "translation" );
}
