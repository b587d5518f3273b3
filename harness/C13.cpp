#include "geom.hpp"
// end points: one concrete, one symbolic along a family
static Point2d fixedPt() { return Point2d(1,-2); }
template<class S> static void ends( const S& s, const Point2d& a, const Point2d& b, const char* w, bool oriented, double tol=1e-5 )
{
	auto p=s.getPts(); Fm f=And( nearpt(p.first,a,tol), nearpt(p.second,b,tol) );
	check( oriented? f : Or( f, And( nearpt(p.first,b,tol), nearpt(p.second,a,tol) ) ), w );
}
CASE(split_middle)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int o=choose("o",3);
	Point2d a=fixedPt(), b(x,y), m((1+x)/2,(y-2)/2); assume( ge(d2(a,b),0.01) );
	if( o==2 ) { OSegment s(a,b); auto p=s.split(); ends(p.first,a,m,"first",true); ends(p.second,m,b,"second",true); auto q=split(s); check( q.first==p.first && q.second==p.second, "free" ); }
	else
	{
		Segment s= o? Segment(a,b):Segment(b,a); auto q=s.getPts(); auto p=s.split(); auto f=split(s);
		ends(p.first,q.first,m,"first",false); ends(p.second,m,q.second,"second",false); check( f.first==p.first && f.second==p.second, "free" );
	}
}
CASE(split_distance)
{
	Place P=placeOf( choose("place",3) ); Num L=P.s*in("L",0.05,9), t=P.s*in("t",-2,10), X0=P.x+1, Y0=P.y-2; int d=choose("d",5), r=choose("r",2); Dir u=dirOf(d); if( r ) { u.x=-u.x; u.y=-u.y; }
	Point2d a(X0,Y0), b(X0+L*u.x,Y0+L*u.y);
	OSegment s(a,b);
	bool bad= branch( Or( le(t,0), ge(t,L) ) );
	if( bad )
	{
		assume( Or( le(t,-1e-6), ge(t,L+1e-6), eq(t,0) ) );
		check( throws([&]{ s.split(t); }), "out-of-range-rejected" );
		return;
	}
	assume( And( ge(t,1e-6), le(t,L-1e-6) ) );
	auto p=s.split(t); Point2d m(X0+t*u.x,Y0+t*u.y);
	ends(p.first,a,m,"first",true); ends(p.second,m,b,"second",true);
	auto q=split(s,t); check( q.first==p.first && q.second==p.second, "free" );
}
CASE(point_at)
{
	Place P=placeOf( choose("place",3) ); Num t=P.s*in("t",-1,20), L=P.s*in("L",0.05,9), X0=P.x+1, Y0=P.y-2; int d=choose("d",5), r=choose("r",2); Dir u=dirOf(d); if( r ) { u.x=-u.x; u.y=-u.y; }
	Point2d a(X0,Y0), b(X0+L*u.x,Y0+L*u.y); OSegment s(a,b);
	if( branch( lt(t,0) ) ) { check( throws([&]{ s.getPointAt(t); }), "negative-rejected" ); return; }
	Point2d p=s.getPointAt(t);
	check( nearpt( p, X0+t*u.x, Y0+t*u.y, 1e-5 ), "position" );
	obs("p",p);
}
CASE(point_at_general)
{
	Num x=in("x",-5,5), y=in("y",-5,5); int k=choose("k",3); double t= k==0?0.5:k==1?2:7;
	Point2d a=fixedPt(), b(x,y); assume( ge(d2(a,b),0.04) ); clearly(x-1); clearly(y+2); OSegment s(a,b);
	Point2d p=s.getPointAt(t);
	check( near( d2(p,a), t*t, 1e-4 ), "distance" );
	check( near( cross(a,b,p), 0, 1e-4 ), "aligned" );
	check( gt( (p.getX()-1)*(x-1)+(p.getY()+2)*(y+2), 0 ), "forward" );
}
CASE(extended)
{
	Num x=in("x",-5,5), y=in("y",-5,5);
	Point2d a=fixedPt(), b(x,y); assume( ge(d2(a,b),0.04) ); clearly(x-1); clearly(y+2);
	Segment s(a,b), e=s.getExtended(), f=getExtended(s);
	ends( e, Point2d(2-x,-4-y), Point2d(2*x-1,2*y+2), "three-times-longer", false, 1e-4 );
	check( e==f, "free" );
	check( e.getPts().first<e.getPts().second, "ordered" );
}
// axis aligned, general, long and short segments at several places
CASE(extended_places)
{
	Place P=placeOf( choose("place",4) ); int d=choose("d",7), r=choose("r",2); Dir u=dirOf(d); Num L=P.s*in("L",0.05,9), X0=P.x+1, Y0=P.y-2;
	if( r ) { u.x=-u.x; u.y=-u.y; }
	Segment s( Point2d(X0,Y0), Point2d(X0+L*u.x,Y0+L*u.y) );
	ends( s.getExtended(), Point2d(X0-L*u.x,Y0-L*u.y), Point2d(X0+2*L*u.x,Y0+2*L*u.y), "extended", false, 1e-4 );
	ends( getExtended(s), Point2d(X0-L*u.x,Y0-L*u.y), Point2d(X0+2*L*u.x,Y0+2*L*u.y), "extended-free", false, 1e-4 );
	Line2d l=s.getBisector(); auto v=l.get();
	check( near( evalLine(l,X0+L*u.x/2,Y0+L*u.y/2), 0, 1e-5 ), "bisector-middle" ); check( near( v[0]*u.y-v[1]*u.x, 0, 1e-5 ), "bisector-direction" );
	check( nearpt( s.getCenter(), X0+L*u.x/2, Y0+L*u.y/2 ), "center" );
	auto h=s.split(); check( And( near(4*sq(h.first.length()),sq(s.length()),1e-4), near(4*sq(h.second.length()),sq(s.length()),1e-4) ), "halves" );
}
CASE(orthogonals_places)
{
	Place P=placeOf( choose("place",4) ); int d=choose("d",7), r=choose("r",2), o=choose("o",2); Dir u=dirOf(d); Num L=P.s*in("L",0.05,9), X0=P.x+1, Y0=P.y-2;
	if( r ) { u.x=-u.x; u.y=-u.y; }
	Point2d a(X0,Y0), b(X0+L*u.x,Y0+L*u.y);
	auto go=[&]( const auto& s )
	{
		auto q=s.getPts(); auto pts=s.getOrthogPts(); auto segs=s.getOrthogSegs();
		Num dx=q.second.getX()-q.first.getX(), dy=q.second.getY()-q.first.getY();
		for( int e=0;e<2;e++ )
		{
			const Point2d& c= e? q.second : q.first; Num cx=c.getX(), cy=c.getY();
			Fm one=And( nearpt(pts[2*e],cx-dy,cy+dx,1e-5), nearpt(pts[2*e+1],cx+dy,cy-dx,1e-5) ), two=And( nearpt(pts[2*e],cx+dy,cy-dx,1e-5), nearpt(pts[2*e+1],cx-dy,cy+dx,1e-5) );
			check( Or( one, two ), "both-sides" );
			for( int i=0;i<2;i++ ) ends( segs[2*e+i], c, pts[2*e+i], "segment", false );
		}
		// going round: the points of the same side follow each other
		check( nearpt(pts[1],pts[2].getX()-dx,pts[2].getY()-dy,1e-5), "turning" );
		check( nearpt(pts[0],pts[3].getX()-dx,pts[3].getY()-dy,1e-5), "turning-closed" );
	};
	if( o ) go( OSegment(a,b) ); else go( Segment(a,b) );
}
CASE(sides_places)
{
	Place P=placeOf( choose("place",4) ); int d=choose("d",7), r=choose("r",2); Dir u=dirOf(d); Num L=P.s*in("L",0.05,9), t=P.s*in("t",-9,9), h=P.s*in("h",-4,4), X0=P.x+1, Y0=P.y-2;
	if( r ) { u.x=-u.x; u.y=-u.y; }
	OSegment s( X0,Y0, X0+L*u.x,Y0+L*u.y ); away( h, 1e-3*P.s );
	auto w=s.getPointSide( Point2d( X0+t*u.x-h*u.y, Y0+t*u.y+h*u.x ) );
	check( w== ( branch( gt(h,0) ) ? PointSide::Left : PointSide::Right ), "side" );
	check( s.getPointSide( Point2d( X0, Y0 ) )==PointSide::Neither && s.getPointSide( Point2d( X0+L*u.x, Y0+L*u.y ) )==PointSide::Neither, "ends" );
}
CASE(parallels)
{
	Place P=placeOf( choose("place",4) ); Num L=P.s*in("L",0.05,9), t=P.s*in("t",-1,6), X0=P.x+1, Y0=P.y-2; int d=choose("d",5), r=choose("r",2), o=choose("o",2); Dir u=dirOf(d); if( r ) { u.x=-u.x; u.y=-u.y; }
	Point2d a(X0,Y0), b(X0+L*u.x,Y0+L*u.y);
	if( branch( le(t,0) ) ) { assume( le(t,-1e-9) ); check( throws([&]{ Segment(a,b).getParallelSegs(t); }), "invalid-distance-rejected" ); return; }
	assume( ge(t,1e-3) );
	// left of the oriented segment: rotate the direction by +90 degrees
	Point2d la(X0-t*u.y,Y0+t*u.x), lb(X0+L*u.x-t*u.y,Y0+L*u.y+t*u.x), ra(X0+t*u.y,Y0-t*u.x), rb(X0+L*u.x+t*u.y,Y0+L*u.y-t*u.x);
	if( o )
	{
		OSegment s(a,b); auto p=s.getParallelSegs(t);
		ends(p.first,la,lb,"first-on-the-left",true); ends(p.second,ra,rb,"second-on-the-right",true);
		check( s.getPointSide( p.first.getCenter() )==PointSide::Left && s.getPointSide( p.second.getCenter() )==PointSide::Right, "sides" );
	}
	else
	{
		Segment s(a,b); auto p=s.getParallelSegs(t); auto f=getParallelSegs(s,t);
		auto is=[&]( const Segment& q, const Point2d& e, const Point2d& g ) { auto z=q.getPts(); return Or( And( nearpt(z.first,e,1e-5), nearpt(z.second,g,1e-5) ), And( nearpt(z.first,g,1e-5), nearpt(z.second,e,1e-5) ) ); };
		check( Or( And( is(p.first,la,lb), is(p.second,ra,rb) ), And( is(p.first,ra,rb), is(p.second,la,lb) ) ), "both-parallels" );
		check( f.first==p.first && f.second==p.second, "free" );
	}
}
CASE(orthogonals)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int o=choose("o",2);
	Point2d a=fixedPt(), b(x,y); assume( ge(d2(a,b),0.01) ); away(x-1,1e-6);
	auto go=[&]( const auto& s )
	{
		auto q=s.getPts(); auto pts=s.getOrthogPts(); auto segs=s.getOrthogSegs();
		Num dx=q.second.getX()-q.first.getX(), dy=q.second.getY()-q.first.getY();
		for( int i=0;i<4;i++ )
		{
			const Point2d& base= i<2? q.first : q.second;
			check( near( (pts[i].getX()-base.getX())*dx+(pts[i].getY()-base.getY())*dy, 0, 1e-5 ), "orthogonal" );
			check( near( d2(pts[i],base), dx*dx+dy*dy, 1e-5 ), "same-length" );
			ends( segs[i], base, pts[i], "segment", false );
		}
		// the four points are distinct: both sides of each end
		for( int i=0;i<4;i++ ) for( int j=0;j<i;j++ ) check( ge( d2(pts[i],pts[j]), 0.5*(dx*dx+dy*dy) ), "distinct" );
		for( int i=0;i<4;i++ ) { int n=0; for( int j=0;j<4;j++ ) if( branch( gt( cross(q.first,q.second,pts[j]), 0 ) ) ) n++; check( n==2, "two-each-side" ); break; }
	};
	if( o ) go( OSegment(a,b) ); else { Segment s(a,b); go(s); auto p=getOrthogPts(s); auto p2=s.getOrthogPts(); auto g=getOrthogSegs(s); auto g2=s.getOrthogSegs(); for(int i=0;i<4;i++) check( p[i]==p2[i] && g[i]==g2[i], "free" ); }
}
CASE(bisector)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int o=choose("o",2);
	Point2d a=fixedPt(), b(x,y); assume( ge(d2(a,b),0.01) );
	Line2d l; if( o ) { OSegment s(b,a); l=s.getBisector(); } else { Segment s(a,b); l=s.getBisector(); check( l==getBisector(s), "free" ); }
	auto v=l.get();
	check( near( evalLine(l,(x+1)/2,(y-2)/2), 0, 1e-5 ), "through-middle" );
	check( near( v[0]*(y+2)-v[1]*(x-1), 0, 1e-5 ), "orthogonal" );
}
CASE(point_side)
{
	Num x=in("x",-10,10), y=in("y",-10,10), x2=in("x2",-10,10), y2=in("y2",-10,10);
	Point2d a=fixedPt(), b(x,y), p(x2,y2); assume( ge(d2(a,b),0.01) );
	OSegment s(a,b); auto r=s.getPointSide(p);
	Num c=cross(a,b,p);
	check( Imp( gt(c,1e-6), T(r==PointSide::Left) ), "left" );
	check( Imp( lt(c,-1e-6), T(r==PointSide::Right) ), "right" );
	check( Imp( Or( gt(c,1e-6), lt(c,-1e-6) ), T( (-OSegment(s)).getPointSide(p)== (r==PointSide::Left?PointSide::Right:PointSide::Left) ) ), "reverse" );
}
CASE(point_side_neither)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int k=choose("k",5); static const double f[5]={0,1,0.5,-2,4};
	Point2d a=fixedPt(), b(x,y); assume( ge(d2(a,b),0.01) );
	OSegment s(a,b); Point2d p(1+f[k]*(x-1),-2+f[k]*(y+2));
	check( s.getPointSide(p)==PointSide::Neither, "neither-on-the-line" );
}
CASE(signed_angle)
{
	Num x=in("x",-5,5), y=in("y",-5,5); int d=choose("d",7); Dir u=dirOf(d);
	assume( ge(x*x+y*y,0.04) );
	OSegment s( 1,2, 1+u.x, 2+u.y ), t( -3,1, -3+x, 1+y );
	Num al=s.getAngle(t);
	check( And( ge(al,-3.1416), le(al,3.1416) ), "range" );
	// sign of the angle is that of the cross product, cosine that of the dot product
	Num cr=u.x*y-u.y*x, dt=u.x*x+u.y*y;
	check( Imp( gt(cr,1e-3), gt(al,0) ), "counter-clockwise-positive" );
	check( Imp( lt(cr,-1e-3), lt(al,0) ), "clockwise-negative" );
	check( Imp( And( gt(dt,1e-3), absge(cr,1e-3) ), And( lt(al,1.5709), gt(al,-1.5709) ) ), "acute" );
	check( Imp( And( lt(dt,-1e-3), absge(cr,1e-3) ), absge(al,1.5707) ), "obtuse" );
	Num be=t.getAngle(s);
	check( Imp( absge(cr,1e-3), near( al+be,0,1e-5 ) ), "antisymmetric" );
}
