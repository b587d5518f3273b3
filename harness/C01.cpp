#include "lib.hpp"
CASE(coords)
{
	Num x=in("x",-100,100), y=in("y",-100,100);
	Point2d p(x,y);
	check( And( eq(p.getX(),x), eq(p.getY(),y) ), "ctor2" );
	Point2d q; check( nearpt(q,0,0), "default-origin" );
	q.set( x, y );
	check( nearpt(q,x,y), "set2" );
	check( q==p, "set2-equal" );
	Point2d r(p);
	check( nearpt(r,x,y), "copy" );
	Point2d_<float> pf0; (void)pf0;
	std::array<Num,3> arr{ x,y,Num(1) };
	Point2d a(arr); check( nearpt(a,x,y), "array3" );
	std::vector<Num> vec{ x,y,Num(1) };
	Point2d v(vec); check( nearpt(v,x,y), "vector3" );
	struct XY { Num x,y; XY( Num a, Num b ):x(a),y(b){} };
	auto e=p.getPt<XY>();
	check( And( near(e.x,x), near(e.y,y) ), "getPt" );
	check( !p.isInf(), "finite" );
	check( near( p.length(),0 ), "length" );
	check( near( p.area(),0 ), "area" );
	check( p.size()==1, "size" );
	obs("p",a);
}
CASE(homogeneous)
{
	Num x=in("x",-20,20), y=in("y",-20,20), w=in("w",-20,20);
	away(w,0.05);
	Point2d p( x*w, y*w, w );
	check( nearpt(p,x,y), "value-over-w" );
	Point2d q; q.set( x*w, y*w, w );
	check( nearpt(q,x,y), "set3" );
	check( !p.isInf(), "finite" );
	check( p==Point2d(x,y), "equals-euclidean" );
	check( Point2d(x,y)==p, "equals-euclidean-sym" );
	std::vector<Num> vec{ x*w, y*w, w };
	check( Point2d(vec)==q, "vector" );
	auto g=p.get();
	check( And( near( g[0],x*g[2] ), near( g[1],y*g[2] ) ), "get" );
}
CASE(homogeneous2)
{
	Num a=in("a",-20,20), b=in("b",-20,20), w=in("w",-20,20), k=in("k",-3,3);
	away(w,0.05); away(k,0.05);
	Point2d p( a, b, w ), q( a*k, b*k, w*k );
	check( And( near( p.getX()*w, a ), near( p.getY()*w, b ) ), "coordinates" );
	check( And( near( q.getX(), p.getX() ), near( q.getY(), p.getY() ) ), "scale-invariant" );
	obs("p",p);
}
CASE(infinite)
{
	Num a=in("a",-20,20), b=in("b",-20,20);
	bool t=throws( [&]{ Point2d p( a, b, 0 ); check( p.isInf(), "isInf" ); auto g=p.get(); check( near( g[0]*b-g[1]*a, 0 ), "direction" ); } );
	check( Imp( Or( absge(a,1e-3), absge(b,1e-3) ), T(!t) ), "point-at-infinity-accepted" );
	check( Imp( And( eq(a,0), eq(b,0) ), T(t) ), "zero-triplet-rejected" );
}
CASE(equality)
{
	Num x=in("x",-10,10), y=in("y",-10,10), dx=in("dx",-1,1), dy=in("dy",-1,1);
	Point2d p(x,y), q(x+dx,y+dy);
	bool e=(p==q);
	check( (q==p)==e, "symmetric" );
	check( (p!=q)!=e, "not-equal-is-negation" );
	check( p==p, "reflexive" );
	check( Imp( T(e), And( absle(dx,2e-10), absle(dy,2e-10) ) ), "equal-means-same-place" );
	check( Imp( And( absle(dx,1e-11), absle(dy,1e-11) ), T(e) ), "same-place-means-equal" );
}
CASE(order)
{
	Num x1=in("x1",-10,10), y1=in("y1",-10,10), x2=in("x2",-10,10), y2=in("y2",-10,10);
	Point2d p(x1,y1), q(x2,y2);
	bool lpq=p<q, lqp=q<p;
	check( !(lpq&&lqp), "asymmetric" );
	check( !(p<p), "irreflexive" );
	check( Iff( T(lpq), Or( lt(x1,x2), And( eq(x1,x2), lt(y1,y2) ) ) ), "lexicographic" );
	check( Imp( T(!lpq&&!lqp), And( eq(x1,x2), eq(y1,y2) ) ), "total" );
}
CASE(order_homogeneous)
{
	Num x=in("x",-10,10), w=in("w",-10,10);
	away(w,0.1);
	int k=choose("k",4);
	static const Num qs[4][2]={{0,0},{-3,1},{2.5,-4},{-1,-1}};
	Num y= k==0? Num(2): Num(-1);
	Point2d p( x*w, y*w, w ), q( qs[k][0], qs[k][1] );
	assume( absge( x-qs[k][0], 1e-3 ) );
	check( Iff( T(p<q), lt(x,qs[k][0]) ), "order-independent-of-representation" );
	check( Iff( T(q<p), gt(x,qs[k][0]) ), "order-independent-of-representation2" );
}
CASE(distance)
{
	Num x1=in("x1",-10,10), y1=in("y1",-10,10), x2=in("x2",-10,10), y2=in("y2",-10,10);
	Point2d p(x1,y1), q(x2,y2);
	Num d=p.distTo(q);
	check( ge(d,0), "nonneg" );
	check( near( d*d, sq(x1-x2)+sq(y1-y2) ), "pythagoras" );
	check( near( d, q.distTo(p) ), "symmetric" );
	check( near( dist(p,q), d ), "free-function" );
	observe("d",d);
}
CASE(distance_homog)
{
	Num x=in("x",-10,10), w=in("w",0.1,10); int s=choose("s",2);
	if( s ) w=-w;
	Point2d p( x*w, 2*w, w ), q( 3, -1 );
	check( near( sq(p.distTo(q)), sq(x-3)+9 ), "homog" );
	check( near( sq(q.distTo(p)), sq(x-3)+9 ), "homog2" );
}
CASE(moves)
{
	Num x=in("x",-10,10), y=in("y",-10,10), dx=in("dx",-10,10), dy=in("dy",-10,10);
	Point2d p(x,y);
	p.translate(dx,dy);
	check( nearpt(p,x+dx,y+dy), "translate" );
	p.translate( std::make_pair(dx,dy) );
	check( nearpt(p,x+2*dx,y+2*dy), "translate-pair" );
	translate( p, dx, dy );
	check( nearpt(p,x+3*dx,y+3*dy), "translate-free" );
	translate( p, std::make_pair(dx,dy) );
	check( nearpt(p,x+4*dx,y+4*dy), "translate-free-pair" );
	p.moveTo( Point2d(dx,dy) );
	check( nearpt(p,dx,dy), "moveTo" );
	moveTo( p, Point2d(y,x) );
	check( nearpt(p,y,x), "moveTo-free" );
}
CASE(translate_homog)
{
	Num x=in("x",-10,10), dx=in("dx",-10,10), w=in("w",-10,10); away(w,0.1);
	Point2d p( x*w, 3*w, w );
	p.translate( dx, 2*dx );
	check( nearpt(p,x+dx,3+2*dx), "translate-homog" );
}
// the same abscissa, any homogeneous coordinates: the ordinates decide
CASE(order_same_x)
{
	static const double W[5]={1,-2,0.25,-0.5,16}; int i=choose("i",5), j=choose("j",5); double w=W[i], z=W[j]; Num y=in("y",-9,9), t=in("t",-9,9); int k=choose("x",3); double x= k==0?0: k==1? 3 : -2.5;
	Point2d p(x*w,y*w,Num(w)), q(x*z,t*z,Num(z)); clearly( y-t, 1e-3 );
	check( Iff( T(p<q), lt(y,t) ), "less" ); check( Iff( T(q<p), lt(t,y) ), "greater" ); check( Iff( T(p==q), eq(y,t) ), "equal" ); check( (p!=q)!=(p==q), "negation" );
	std::set<Point2d> s{p,q}; check( Iff( T(s.size()==1), eq(y,t) ), "set" );
}
