// geometric oracles shared by the intersection / containment harnesses (division-free decisions by branch())
#pragma once
#include "lib.hpp"
typedef std::vector<Point2d> Pts;
struct Side { Point2d a,b; };
inline std::vector<Side> sidesOf( const Pts& p, bool closed )
{
	std::vector<Side> s;
	for( size_t i=0;i+1<p.size();i++ ) s.push_back( {p[i],p[i+1]} );
	if( closed ) s.push_back( {p.back(),p[0]} );
	return s;
}
inline Point2d lerp( const Point2d& a, const Point2d& b, Num t )
{ return Point2d( a.getX()+t*(b.getX()-a.getX()), a.getY()+t*(b.getY()-a.getY()) ); }
// crossing point of [a,b] and [c,d] added to e; the inputs where an end is within m (area) of the other's line are excluded
inline void crossing( const Point2d& a, const Point2d& b, const Point2d& c, const Point2d& d, Pts& e, double m=1e-2 )
{
	Num f1=cross(a,b,c), f2=cross(a,b,d), f3=cross(c,d,a), f4=cross(c,d,b);
	away(f1,m); away(f2,m); away(f3,m); away(f4,m);
	bool p= branch( gt(f1,0) )!=branch( gt(f2,0) ), q= branch( gt(f3,0) )!=branch( gt(f4,0) );
	if( p && q ) e.push_back( lerp(a,b,f3/(f3-f4)) );
}
// line (a,b,c) and side s
inline void crossingLine( Num a, Num b, Num c, const Side& s, Pts& e, double m=1e-2 )
{
	Num f1=a*s.a.getX()+b*s.a.getY()+c, f2=a*s.b.getX()+b*s.b.getY()+c;
	away(f1,m); away(f2,m);
	if( branch( gt(f1,0) )!=branch( gt(f2,0) ) ) e.push_back( lerp(s.a,s.b,f1/(f1-f2)) );
}
// number of points of the circle on the side
inline unsigned crossingCircle( const Point2d& c, Num R, const Side& s, double m=1e-2 )
{
	Num ux=s.b.getX()-s.a.getX(), uy=s.b.getY()-s.a.getY(), n2=ux*ux+uy*uy;
	Num da=d2(s.a,c)-R*R, db=d2(s.b,c)-R*R, cr=cross(s.a,s.b,c), g=cr*cr-R*R*n2;
	Num pr=(c.getX()-s.a.getX())*ux+(c.getY()-s.a.getY())*uy;
	away(da,m); away(db,m); away(g,m);
	bool ia=branch( lt(da,0) ), ib=branch( lt(db,0) );
	if( ia!=ib ) return 1;
	if( !ia && branch( And( lt(g,0), gt(pr,0), lt(pr,n2) ) ) ) return 2;
	return 0;
}
inline Fm onSide( const Point2d& p, const Side& s, double tol=1e-3 )
{
	Num ux=s.b.getX()-s.a.getX(), uy=s.b.getY()-s.a.getY(), t=(p.getX()-s.a.getX())*ux+(p.getY()-s.a.getY())*uy;
	return And( near( cross(s.a,s.b,p),0,tol ), ge(t,-tol), le(t,ux*ux+uy*uy+tol) );
}
inline Fm onSides( const Point2d& p, const std::vector<Side>& v, double tol=1e-3 )
{
	std::vector<Fm> f; for( auto& s:v ) f.push_back( onSide(p,s,tol) );
	return any(f);
}
// concrete shapes: triangle, non-convex quadrilateral, L-shaped hexagon, square with a side notch
inline Pts shape( int k )
{
	auto P=[]( double x, double y ) { return Point2d(x,y); };
	if( k==0 ) return { P(0,0), P(4,1), P(1,3) };
	if( k==1 ) return { P(0,0), P(4,-1), P(1.5,1), P(2,4) };
	if( k==2 ) return { P(0,0), P(4,0), P(4,2), P(1,2), P(1,3.5), P(0,3.5) };
	if( k==3 ) return { P(-1,-1), P(3,-1), P(3,3), P(1,0.5), P(-1,3) };
	return { P(0,0), P(3,0), P(3,2), P(0,2) };
}
// bigger ones: convex octagon, comb, spiral
inline Pts bigShape( int k )
{
	auto P=[]( double x, double y ) { return Point2d(x,y); };
	if( k==0 ) return { P(1,0), P(3,0.2), P(5,1.5), P(5.6,3.7), P(4.4,6), P(2,6.6), P(0,5.2), P(-0.7,2.4) };
	if( k==1 ) return { P(0,0), P(8,0.5), P(8.5,6), P(7,6.2), P(6.5,2), P(5,2.3), P(4.6,6.8), P(3,6.5), P(2.2,1.8), P(-0.5,5) };
	return { P(0,0), P(7,-0.5), P(7.5,7), P(-1,6.5), P(-0.8,2), P(4,2.2), P(4.3,4), P(1,4.3), P(0.8,5.4), P(5.9,5.6), P(5.5,1) };
}
// places where a figure is put: scale and shift
struct Place { double s,x,y; };
inline Place placeOf( int i ) { static const Place t[]={ {1,0,0},{64,1000,-700},{0.0625,-3,200},{1,-20000,30000} }; return t[i]; }
inline Point2d inPlace( const Place& P, Num x, Num y ) { return Point2d( P.x+P.s*x, P.y+P.s*y ); }
// back to local units
inline Point2d fromPlace( const Place& P, const Point2d& p ) { return Point2d( (p.getX()-P.x)/P.s, (p.getY()-P.y)/P.s ); }
inline Pts placed( const Pts& p, int i ) { auto t=placeOf(i); Pts r; for( auto& q:p ) r.push_back( Point2d(q.getX()*t.s+t.x,q.getY()*t.s+t.y) ); return r; }
inline Pts moved( const Pts& p, Num dx, Num dy )
{ Pts r; for( auto& q:p ) r.push_back( Point2d(q.getX()+dx,q.getY()+dy) ); return r; }
// p is inside the outline (crossing parity); inputs within about m of a side are excluded
inline bool inPoly( const Point2d& p, const std::vector<Side>& S, double m=1e-2, bool lines=false )
{
	bool in=false; Num x=p.getX(), y=p.getY();
	for( auto& s:S )
	{
		Num ux=s.b.getX()-s.a.getX(), uy=s.b.getY()-s.a.getY(), n2=ux*ux+uy*uy, c=cross(s.a,s.b,p);
		Num t=(x-s.a.getX())*ux+(y-s.a.getY())*uy;
		assume( Or( absge(c,m), le(t,-m), ge(t,n2+m) ) );
		bool ua=branch( gt(s.a.getY(),y) ), ub=branch( gt(s.b.getY(),y) );
		if( ua!=ub && branch( gt(c,0) )==ub ) in=!in;
	}
	return in;
}
