#include "geom.hpp"
struct S4 { double a,b,c,d; };
static const S4 FIX[6]={ {0,0,4,0}, {1,-2,1,3}, {-1,-1,2,3}, {-2,3,3,-9}, {0,0,0.6,0.8}, {-3,0.5,4.2,2.6} };
// signed areas: a,b relative to the line (c,d)
static Num side( const Point2d& c, const Point2d& d, const Point2d& p ) { return cross(c,d,p); }
template<class X> static void on( const X& s, const Point2d& p, const char* w )
{
	auto q=s.getPts();
	check( near( cross(q.first,q.second,p), 0, 1e-4 ), std::string(w)+"-aligned" );
	Num t=(p.getX()-q.first.getX())*(q.second.getX()-q.first.getX())+(p.getY()-q.first.getY())*(q.second.getY()-q.first.getY());
	check( And( ge(t,-1e-3), le(t,d2(q.first,q.second)+1e-3) ), std::string(w)+"-between" );
}
template<class A,class B> static void verdict( const A& s, const B& t, const Point2d& a, const Point2d& b, const Point2d& c, const Point2d& d )
{
	auto r=s.intersects(t); auto r2=t.intersects(s);
	check( r()==r2(), "symmetric" );
	Num s1=side(c,d,a), s2=side(c,d,b), s3=side(a,b,c), s4=side(a,b,d);
	Num det=s1-s2; // cross product of the directions, up to sign
	assume( absge(det,0.05) );
	const double m=1e-3;
	Fm meet=And( lt(s1*s2,-m), lt(s3*s4,-m) );
	Fm apart=Or( gt(s1*s2,m), gt(s3*s4,m) );
	check( Imp( meet, T(r()) ), "crossing-reported" );
	check( Imp( apart, T(!r()) ), "apart-not-reported" );
	check( r.size()== (r()?1u:0u), "size" );
	if( r() )
	{
		auto p=r.get(), p2=r2.get();
		check( nearpt(p,p2,1e-5), "same-point" );
		on(s,p,"first"); on(t,p,"second");
		obs("p",p);
	}
	else check( throws([&]{ r.get(); }), "get-throws" );
}
// a segment of concrete direction anywhere
CASE(segment_moving)
{
	int k=choose("k",6), e=choose("e",TH(3,4)); static const double E[4][2]={{2.4,1.8},{0,3},{-1.5,2},{2,0}};
	Num x=in("x",-5,5), y=in("y",-5,5);
	Point2d a(x,y), b(x+E[e][0],y+E[e][1]), c(FIX[k].a,FIX[k].b), d(FIX[k].c,FIX[k].d);
	double det=E[e][0]*(FIX[k].d-FIX[k].b)-E[e][1]*(FIX[k].c-FIX[k].a);
	if( std::fabs(det)<0.1 ) skip("parallel");
	verdict( Segment(a,b), Segment(c,d), a,b,c,d );
}
// the same far from the origin, larger and smaller
CASE(segment_places)
{
	Place P=placeOf( 1+choose("place",3) ); int k=choose("k",6), e=choose("e",TH(2,4)); static const double E[4][2]={{2.4,1.8},{-1.5,2},{0,3},{2,0}};
	Num x=in("x",-5,5), y= TH(choose("h",4),choose("h",9))-2.25;
	auto at=[&]( Num u, Num v ) { return Point2d(P.x+P.s*u,P.y+P.s*v); };
	double det=E[e][0]*(FIX[k].d-FIX[k].b)-E[e][1]*(FIX[k].c-FIX[k].a); if( std::fabs(det)<0.1 ) skip("parallel");
	Point2d a(x,y), b(x+E[e][0],y+E[e][1]), c(FIX[k].a,FIX[k].b), d(FIX[k].c,FIX[k].d);
	Segment s( at(a.getX(),a.getY()), at(b.getX(),b.getY()) ), t( at(c.getX(),c.getY()), at(d.getX(),d.getY()) );
	Num s1=side(c,d,a), s2=side(c,d,b), s3=side(a,b,c), s4=side(a,b,d); const double m=1e-3;
	Fm meet=And( lt(s1*s2,-m), lt(s3*s4,-m) ), apart=Or( gt(s1*s2,m), gt(s3*s4,m) );
	auto r=s.intersects(t), r2=t.intersects(s); auto l=s.intersects(t.getLine()), l2=t.getLine().intersects(s);
	check( r()==r2(), "symmetric" ); check( l()==l2(), "line-symmetric" );
	check( Imp( meet, T(r()) ), "crossing-reported" ); check( Imp( apart, T(!r()) ), "apart-not-reported" );
	check( Imp( lt(s1*s2,-m), T(l()) ), "line-crossing-reported" ); check( Imp( gt(s1*s2,m), T(!l()) ), "line-apart-not-reported" );
	auto on=[&]( const Point2d& q, const char* w ) { Point2d p( (q.getX()-P.x)/P.s, (q.getY()-P.y)/P.s ); check( And( near( cross(a,b,p),0,1e-4 ), near( cross(c,d,p),0,1e-4 ) ), w ); };
	if( r() ) { on( r.get(), "point" ); on( r2.get(), "point-reverse" ); }
	if( l() ) { on( l.get(), "line-point" ); on( l2.get(), "line-point-reverse" ); }
	on( s*t, "product" ); on( s.getLine()*t.getLine(), "product-lines" );
}
// one end anywhere on a vertical line
CASE(segment_turning)
{
	int k=choose("k",6), e=choose("e",TH(3,4)); static const double E[4]={-4,0.25,2,4.5};
	Num y=in("y",-5,5);
	Point2d a(E[e],y), b(0.5,1.5), c(FIX[k].a,FIX[k].b), d(FIX[k].c,FIX[k].d);
	clearly( y-1.5 );
	verdict( Segment(a,b), Segment(c,d), a,b,c,d );
}
CASE(oriented)
{
	int k=choose("k",6), w=choose("w",3);
	Num x=in("x",-5,5);
	Point2d a(x,-3.5), b(2,1.5), c(FIX[k].a,FIX[k].b), d(FIX[k].c,FIX[k].d);
	clearly( x-2 );
	if( w==0 ) verdict( OSegment(a,b), OSegment(c,d), a,b,c,d );
	else if( w==1 ) verdict( OSegment(b,a), OSegment(d,c), a,b,c,d );
	else
	{
		auto r=Segment(a,b).intersects( OSegment(c,d) ); auto q=Segment(a,b).intersects( Segment(c,d) );
		check( r()==q(), "mixed" ); if( r() ) check( nearpt( r.get(), q.get() ), "mixed-point" );
	}
}
CASE(shared_end)
{
	// touching at one end, or an end on the other segment
	int k=choose("k",6), w=choose("w",3), z=choose("z",3); Num x=in("x",-5,5), y= z==0? 4.5 : z==1 ? 0.25 : -3.5;
	Point2d c(FIX[k].a,FIX[k].b), d(FIX[k].c,FIX[k].d), a(x,y);
	double f= w==0?0: w==1?1:0.5;
	Point2d b( c.getX()+f*(d.getX()-c.getX()), c.getY()+f*(d.getY()-c.getY()) );
	assume( ge( d2(a,b),0.01 ) ); away( cross(c,d,a), 0.2 ); clearly( x-b.getX() );
	Segment s(a,b), t(c,d);
	auto r=s.intersects(t), r2=t.intersects(s);
	check( r() && r2(), "touching-reported" );
	if( r() ) check( nearpt( r.get(), b, 1e-5 ), "touching-point" );
}
CASE(parallel)
{
	Num o=in("o",-3,3), t=in("t",-8,8), L=in("L",0.1,5); int d=choose("d",7); Dir u=dirOf(d);
	Point2d a(0,0), b(u.x,u.y), c(t*u.x-o*u.y,t*u.y+o*u.x), e((t+L)*u.x-o*u.y,(t+L)*u.y+o*u.x);
	Segment s(a,b), q(c,e);
	check( !s.intersects(q)(), "parallel-or-overlapping" ); check( !q.intersects(s)(), "parallel-or-overlapping" );
	check( !s.intersects(s)(), "itself" );
	check( !s.intersects(q.getLine())(), "segment-parallel-line" ); check( !q.getLine().intersects(s)(), "line-parallel-segment" );
	check( s.isParallelTo(q), "isParallelTo" ); check( s.isParallelTo(q.getLine()), "isParallelTo-line" );
}
CASE(line_segment)
{
	int k=choose("k",6), d=choose("d",7), o=choose("o",2); Num c=in("c",-6,6);
	Dir u=dirOf(d); Line2d l(-u.y,u.x,c);
	Point2d a(FIX[k].a,FIX[k].b), b(FIX[k].c,FIX[k].d);
	Num s1=-u.y*a.getX()+u.x*a.getY()+c, s2=-u.y*b.getX()+u.x*b.getY()+c;
	assume( absge( s1-s2, 0.1 ) );
	auto go=[&]( const auto& s )
	{
		auto r=s.intersects(l), r2=l.intersects(s);
		check( r()==r2(), "symmetric" );
		check( Imp( lt(s1*s2,-1e-4), T(r()) ), "crossing-reported" );
		check( Imp( gt(s1*s2,1e-4), T(!r()) ), "apart-not-reported" );
		if( r() )
		{
			auto p=r.get(); check( nearpt(p,r2.get()), "same-point" ); check( near( evalLine(l,p),0 ), "on-line" ); on(s,p,"segment"); check( r.size()==1, "size" );
			obs("p",p);
		}
		else { check( r.size()==0, "size" ); check( throws([&]{ r.get(); }), "get-throws" ); }
	};
	if( o ) go( OSegment(b,a) ); else go( Segment(a,b) );
}
CASE(line_symbolic_segment)
{
	int d=choose("d",7); int z=choose("z",3); Num x=in("x",-5,5), y= z==0? 4.5 : z==1 ? 1.75 : -3.5, c=in("c",-2,2);
	Dir u=dirOf(d); Line2d l(-u.y,u.x,c); clearly(x-1);
	Point2d a(x,y), b(1,2);
	assume( ge( d2(a,b),0.01 ) );
	Num s1=-u.y*x+u.x*y+c, s2=-u.y+u.x*2+c;
	assume( absge( s1-s2, 0.1 ) );
	Segment s(a,b);
	auto r=s.intersects(l);
	check( Imp( lt(s1*s2,-1e-3), T(r()) ), "crossing-reported" );
	check( Imp( gt(s1*s2,1e-3), T(!r()) ), "apart-not-reported" );
	if( r() ) { check( near( evalLine(l,r.get()),0,1e-5 ), "on-line" ); on(s,r.get(),"segment"); }
}
CASE(line_line)
{
	int d=choose("d",7); Num a=in("a",-3,3), b=in("b",-3,3), c=in("c",-3,3); Dir u=dirOf(d);
	assume( ge(a*a+b*b,0.01) );
	Num det=a*u.x+b*u.y; away(det,0.05); // cross product of the two normals
	Line2d l(a,b,c), m(-u.y,u.x,1);
	auto r=l.intersects(m), r2=m.intersects(l);
	check( r() && r2(), "reported" ); check( r.size()==1, "size" );
	if( r() ) { auto p=r.get(); check( near( a*p.getX()+b*p.getY()+c,0,1e-4 ), "on-first" ); check( near( evalLine(m,p),0,1e-5 ), "on-second" ); check( nearpt(p,r2.get(),1e-5), "same" ); }
}
CASE(product_of_segments)
{
	// product of two segments: intersection of the supporting lines
	int k=choose("k",6); Num x=in("x",-5,5), y=in("y",-5,5);
	Point2d a(x,y), b(2,1.5), c(FIX[k].a,FIX[k].b), d(FIX[k].c,FIX[k].d);
	assume( ge( d2(a,b),0.01 ) ); away( cross(a,b,c)-cross(a,b,d), 0.1 );
	Segment s(a,b), t(c,d);
	Point2d p=s*t;
	check( And( near( cross(a,b,p),0,1e-4 ), near( cross(c,d,p),0,1e-4 ) ), "on-both-lines" );
}
