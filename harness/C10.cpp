#include "geom.hpp"
static Fm samePts( const Segment& s, const Point2d& a, const Point2d& b )
{
	auto p=s.getPts();
	return Or( And( nearpt(p.first,a), nearpt(p.second,b) ), And( nearpt(p.first,b), nearpt(p.second,a) ) );
}
// x then y, away from the comparison threshold
static bool lexLess( const Point2d& a, const Point2d& b )
{
	if( branch( lt( a.getX(), b.getX()-1e-8 ) ) ) return true;
	if( branch( gt( a.getX(), b.getX()+1e-8 ) ) ) return false;
	assume( eq( a.getX(), b.getX() ) );
	return branch( lt( a.getY(), b.getY() ) );
}
CASE(unoriented)
{
	Place P=placeOf( choose("place",4) ); Num x1=P.x+P.s*in("x1",-10,10), y1=P.y+P.s*in("y1",-10,10), x2=P.x+P.s*in("x2",-10,10), y2=P.y+P.s*in("y2",-10,10); int w=choose("w",6);
	Point2d a(x1,y1), b(x2,y2);
	assume( ge( d2(a,b), 1e-3 ) );
	Segment s;
	if( w==0 ) s=Segment(a,b);
	else if( w==1 ) s.set(a,b);
	else if( w==2 ) s=Segment(x1,y1,x2,y2);
	else if( w==3 ) s.set(x1,y1,x2,y2);
	else if( w==4 ) s=Segment( std::make_pair(a,b) );
	else s.set( std::make_pair(a,b) );
	bool l=lexLess(a,b);
	auto p=s.getPts();
	check( nearpt( p.first, l?a:b ), "first-is-smallest" );
	check( nearpt( p.second, l?b:a ), "second-is-largest" );
	Segment r(b,a);
	check( s==r, "order-of-ends-ignored" );
	check( !(s!=r), "not-different" );
	check( near( sq(s.length()), d2(a,b), 1e-5 ), "length" );
	check( near( length(s), s.length() ), "free-length" );
	check( near( s.area(),0 ), "area" ); check( s.size()==2, "size" );
	auto c=s.getCenter(), c2=getCenter(s);
	check( And( near( 2*c.getX(), x1+x2 ), near( 2*c.getY(), y1+y2 ) ), "center" );
	check( nearpt(c,c2), "free-center" );
	auto pf=getPts(s); check( And( nearpt(pf.first,p.first), nearpt(pf.second,p.second) ), "free-getPts" );
	observe("len",s.length());
}
CASE(oriented)
{
	Place P=placeOf( choose("place",4) ); Num x1=P.x+P.s*in("x1",-10,10), y1=P.y+P.s*in("y1",-10,10), x2=P.x+P.s*in("x2",-10,10), y2=P.y+P.s*in("y2",-10,10); int w=choose("w",5);
	Point2d a(x1,y1), b(x2,y2);
	assume( ge( d2(a,b), 1e-3 ) );
	OSegment s;
	if( w==0 ) s=OSegment(a,b);
	else if( w==1 ) s.set(a,b);
	else if( w==2 ) s=OSegment(x1,y1,x2,y2);
	else if( w==3 ) s.set( std::make_pair(a,b) );
	else s.set(x1,y1,x2,y2);
	auto p=s.getPts();
	check( And( nearpt(p.first,a), nearpt(p.second,b) ), "keeps-order" );
	OSegment r(b,a);
	check( s!=r, "reverse-differs" );
	check( OSegment(s)==s, "copy" );
	auto v=s.getVector();
	check( And( near( v.first, x2-x1 ), near( v.second, y2-y1 ) ), "vector" );
	check( near( sq(s.length()), d2(a,b), 1e-5 ), "length" );
	auto c=s.getCenter();
	check( And( near( 2*c.getX(), x1+x2 ), near( 2*c.getY(), y1+y2 ) ), "center" );
	OSegment m=-r;
	check( m==s, "minus-reverses" );
	auto q=m.getPts();
	check( And( nearpt(q.first,a), nearpt(q.second,b) ), "minus-points" );
}
CASE(minus_keeps_operand)
{
	Num x1=in("x1",-10,10), y1=in("y1",-10,10); Point2d a(x1,y1), b(1,2);
	assume( ge( d2(a,b), 1e-3 ) );
	OSegment s(a,b);
	OSegment t=-s;
	auto p=s.getPts(), q=t.getPts();
	check( And( nearpt(q.first,b), nearpt(q.second,a) ), "reversed" );
	check( And( nearpt(p.first,a), nearpt(p.second,b) ), "operand-unchanged" );
	s=-s; check( s==t, "self-assign" );
	s=-s; auto w=s.getPts(); check( And( nearpt(w.first,a), nearpt(w.second,b) ), "involution" );
}
CASE(conversion)
{
	Num x1=in("x1",-10,10), y1=in("y1",-10,10); int w=choose("w",2); Point2d a(x1,y1), b(1,2);
	assume( ge( d2(a,b), 1e-3 ) );
	OSegment o= w? OSegment(a,b) : OSegment(b,a);
	Segment s(o);
	check( samePts(s,a,b), "keeps-points" );
	auto p=s.getPts();
	check( lexLess(p.first,p.second), "ordered" );
	check( s==Segment(a,b), "equals-segment" );
	Segment t; t=o;
	check( t==s, "assigned" );
	Segment u(s); check( u==s, "copy" );
	check( samePts(u,a,b), "copy-points" );
}
CASE(null_length)
{
	Num x=in("x",-10,10), y=in("y",-10,10), dx=in("dx",-1,1), dy=in("dy",-1,1);
	Point2d a(x,y), b(x+dx,y+dy);
	bool th=throws([&]{ Segment s(a,b); }), t2=throws([&]{ OSegment s(a,b); });
	Segment z; bool t3=throws([&]{ z.set(a,b); });
	OSegment zo; bool t4=throws([&]{ zo.set(a,b); });
	check( th==t2 && t2==t3 && t3==t4, "same-decision" );
	check( Imp( And( absle(dx,1e-12), absle(dy,1e-12) ), T(th) ), "null-rejected" );
	check( Imp( Or( absge(dx,1e-8), absge(dy,1e-8) ), T(!th) ), "others-accepted" );
}
CASE(equality)
{
	Num x=in("x",-10,10), y=in("y",-10,10), dx=in("dx",-1,1), dy=in("dy",-1,1); int o=choose("o",2), e=choose("e",2);
	Point2d a(x,y), b(20,3), c( e? x:x+dx, e? y:y+dy ), d( e? 20+dx:Num(20), e? 3+dy:Num(3) );
	bool r, n;
	if( o ) { OSegment s(a,b), t(c,d); r= s==t; n= s!=t; } else { Segment s(a,b), t(d,c); r= s==t; n= s!=t; }
	check( r!=n, "negation" );
	check( Imp( And( absle(dx,1e-12), absle(dy,1e-12) ), T(r) ), "equal" );
	check( Imp( Or( absge(dx,1e-8), absge(dy,1e-8) ), T(!r) ), "different" );
}
CASE(strict_order)
{
	Num x=in("x",-10,10), y=in("y",-10,10), x2=in("x2",-10,10), y2=in("y2",-10,10); int o=choose("o",2);
	Point2d a(x,y), b(20,3), c(x2,y2), d(21,-3), e(1,2);
	away( x-x2, 1e-3 ); away( x-1, 1e-3 ); away( x2-1, 1e-3 );
	auto go=[&]( const auto& s, const auto& t, const auto& u )
	{
		check( !(s<s), "irreflexive" );
		bool st=s<t, ts=t<s, tu=t<u, su=s<u;
		check( !(st && ts), "asymmetric" );
		check( !(st && tu) || su, "transitive" );
		check( !(s==t) || (!st && !ts), "equal-not-ordered" );
		check( st==(a<c), "follows-first-point" );
	};
	if( o ) go( OSegment(a,b), OSegment(c,d), OSegment(e,b) ); else go( Segment(a,b), Segment(d,c), Segment(b,e) );
}
CASE(line_of_segment)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int k=choose("k",3), o=choose("o",2); static const double q[3][2]={{0,0},{3,-2},{-5,4}};
	Point2d a(x,y), b(q[k][0],q[k][1]);
	assume( ge( d2(a,b), 1e-2 ) );
	Line2d l; if( o ) l=OSegment(b,a).getLine(); else l=Segment(a,b).getLine();
	check( And( near( evalLine(l,a),0,1e-5 ), near( evalLine(l,b),0,1e-5 ) ), "through-ends" );
	auto v=l.get(); check( near( v[0]*v[0]+v[1]*v[1],1 ), "unit" );
	Line2d f=getLine( Segment(a,b) ); auto w=f.get();
	check( And( near(v[0],w[0]), near(v[1],w[1]), near(v[2],w[2]) ), "free" );
}
CASE(moves)
{
	Num x1=in("x1",-10,10), y1=in("y1",-10,10), x2=in("x2",-10,10), y2=in("y2",-10,10), dx=in("dx",-10,10), dy=in("dy",-10,10); int w=choose("w",4), o=choose("o",2);
	Point2d a(x1,y1), b(x2,y2);
	assume( ge( d2(a,b), 1e-3 ) ); away( x1-x2, 1e-6 );
	auto go=[&]( auto s )
	{
		auto p0=s.getPts();
		Num tx=dx, ty=dy;
		if( w==0 ) s.translate(dx,dy); else if( w==1 ) s.translate( std::make_pair(dx,dy) );
		else { tx=dx-p0.first.getX(); ty=dy-p0.first.getY(); if( w==2 ) s.moveTo(dx,dy); else s.moveTo( Point2d(dx,dy) ); }
		auto p=s.getPts();
		check( nearpt( p.first, p0.first.getX()+tx, p0.first.getY()+ty ), "first-moved" );
		check( nearpt( p.second, p0.second.getX()+tx, p0.second.getY()+ty ), "second-moved" );
		check( near( sq(s.length()), d2(a,b), 1e-5 ), "length-kept" );
	};
	if( o ) go( OSegment(a,b) ); else go( Segment(a,b) );
}
CASE(free_moves)
{
	Num x1=in("x1",-10,10), y1=in("y1",-10,10), dx=in("dx",-10,10), dy=in("dy",-10,10); int w=choose("w",2);
	Segment s( Point2d(x1,y1), Point2d(11,4) ); OSegment t( Point2d(x1,y1), Point2d(11,4) );
	if( w ) { translate( s, dx, dy ); translate( t, dx, dy ); check( nearpt( s.getPts().first, x1+dx, y1+dy ), "translate" ); check( nearpt( s.getPts().second, 11+dx, 4+dy ), "translate2" ); }
	else { moveTo( s, Point2d(dx,dy) ); moveTo( t, Point2d(dx,dy) ); check( nearpt( s.getPts().first, dx, dy ), "moveTo" ); check( nearpt( s.getPts().second, dx+11-x1, dy+4-y1 ), "moveTo2" ); }
	check( And( nearpt( s.getPts().first, t.getPts().first ), nearpt( s.getPts().second, t.getPts().second ) ), "same" );
}
