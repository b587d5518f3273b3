// the thresholds are those in force at the time of the call
#include "geom.hpp"
#include "hlib.hpp"
// every function has been used with the default values before
static void before()
{
	try {
		Point2d a(0,0), b(1,2), c(3,1); Line2d l(a,b), m(a,c); bool r= a==b; r= l==m; Point2d x=l*m; r=l.isParallelTo(m); r=areCollinear(a,b,c); r=a.isInf(); r= side(c,l)==0; l.getPoints(a,Num(1)); l.getRotatedLine(a,Num(1)); l.getCoord(GivenCoord::X,Num(1)); l.getCoord(GivenCoord::Y,Num(1)); (void)x;
		Circle k(a,Num(2)), k3(a,b,c); k.set(a,Num(3)); r= k==k3; Segment s(a,b), t(c,b); r= s==t; r=s.intersects(t)(); r=l.intersects(m)(); r=k.intersects(l)(); r=k.intersects(k3)(); OSegment o(a,b); FRect f(a,b); f.set(a,b); r= f==FRect(a,c); r=f.intersects(f)();
		std::vector<Point2d> v{ {0,0},{4,0},{8,0},{8,8},{4,1} }; CPolyline p(v), q(v); r= p==q; r=Point2d(5,1).isInside(p); r=Point2d(5,1).isInside(k); r=Point2d(5,1).isInside(f); p.minimize(); r=p.isSimple(); r=p.isConvex(); OPolyline w(v); w.minimize(); r=s.intersects(q)(); Circle e; e.set(v);
		Homogr h(1.,2.), g(0.5); r= h==g; h.inverse(); h.normalize(); Ellipse z(Num(1),Num(2),Num(3),Num(1)); z.getCenter(); z.getMajMin(); z.isCircle(); r= z==Ellipse(); r=Point2d(5,1).isInside(z); (void)r;
	} catch( const std::exception& ) { check( false, "default-thresholds" ); }
}
struct Thr { Num& v; Num o; Thr( Num& r, const Num& n ) : v(r), o(r) { before(); v=n; } ~Thr() { v=o; } };
static Num tin( double lo, double hi ) { return in("t",lo,hi); }
CASE(points_equal)
{
	Num t=tin(0.01,2), x=in("x",-3,3); int k=choose("k",3); static const double Y[]={0,0.5,-1}; Point2d p(1,2), q(1+x,2+Y[k]); Num g=x*x+Y[k]*Y[k]-t*t; away(g,1e-3); bool e=branch( lt(g,0) );
	{ Thr h(thr::nullDistance(),t); check( (p==q)==e && (q==p)==e && (p!=q)!=e, "equal" ); check( throws([&]{ Line2d l=p*q; (void)l; })==e, "product" ); check( throws([&]{ Line2d l(p,q); })==e, "line" ); check( throws([&]{ Segment s(p,q); })==e && throws([&]{ OSegment s(p,q); })==e, "segment" ); check( throws([&]{ Circle c(p,q); })==e, "circle" ); }
	if( k ) check( p!=q && !throws([&]{ Line2d l=p*q; (void)l; }), "restored" );
}
CASE(lines_equal) { Num t=tin(0.01,2), v=in("v",-3,3); int d=choose("d",5); Dir u=dirOf(d); Line2d l(u.x,u.y,Num(1)), m(u.x,u.y,1+v); if( branch( And( lt(v,-0.99), gt(v,-1.01) ) ) ) skip("sign"); Num g=v*v-t*t; away(g,1e-3); Thr h(thr::nullDistance(),t); check( (l==m)==branch(lt(g,0)) && (m==l)==(l==m), "equal" ); }
CASE(circle_radius) { Num t=tin(0.01,2), r=in("r",0.001,3); away(r-t,1e-3); bool e=branch(lt(r,t)); Thr h(thr::nullDistance(),t); check( throws([&]{ Circle c(Point2d(1,2),r); })==e, "rejected" ); check( throws([&]{ Circle c; c.set(Point2d(1,2),r); })==e, "set" ); }
CASE(aligned) { Num t=tin(0.01,1), x=in("x",2,7), y=in("y",-2,2); Point2d a(0,0), b(9,0), c(x,y); away(y*y-t*t,1e-3); bool e=branch(lt(y*y-t*t,0)); int o=choose("o",3); Thr h(thr::nullDistance(),t); check( ( o==0? areCollinear(a,b,c) : o==1? areCollinear(c,a,b) : areCollinear(b,c,a) )==e, "aligned" ); check( throws([&]{ Circle k(a,b,c); })==e, "circle" ); }
CASE(on_line) { Num t=tin(0.01,1), y=in("y",-2,2); int d=choose("d",5); Dir u=dirOf(d); Line2d l( Point2d(1,2), Point2d(1+u.x,2+u.y) ); double n=std::sqrt(u.x*u.x+u.y*u.y); Point2d p( 1-u.y/n*y, 2+u.x/n*y ); away(y*y-t*t,1e-3); bool off=branch(gt(y*y-t*t,0)); Thr h(thr::nullDistance(),t); check( throws([&]{ l.getPoints(p,Num(5)); })==off, "points" ); check( throws([&]{ l.getRotatedLine(p,Num(1)); })==off, "rotated" ); check( throws([&]{ l.getOrthogSegment(p); })!=off, "segment" ); }
CASE(parallel)
{
	int a=choose("a",4), d=choose("d",3), w=choose("w",3); static const double A[]={0.01,0.1,0.5,1.2}; Num e=in("e",-3,3); Dir u=dirOf(d); Line2d l(-u.y,u.x,0), m(-u.y+e*u.x,u.x+e*u.y,3); Segment s(1,2,1+u.x,2+u.y), r(0,0,5*(u.x+e*u.y),5*(u.y-e*u.x)); double k=std::tan(A[a]); Num g=e*e-k*k; away(g,1e-3); bool p=branch(lt(g,0));
	{ Thr h(thr::nullAngleValue(),Num(A[a])); check( ( w==0? l.isParallelTo(m) : w==1? s.isParallelTo(r) : l.isParallelTo(r) )==p, "parallel" ); check( throws([&]{ Point2d q=l*m; (void)q; })==p, "product" ); check( l.intersects(m)()!=p, "intersects" ); }
	if( branch( absge(e,0.01) ) ) check( !l.isParallelTo(m), "restored" );
}
CASE(determinant) { Num t=tin(0.01,3), v=in("v",-4,4); Homogr m; m.set(0,0,v); m.set(1,0,Num(2)); m.set(0,1,Num(1)); m.set(1,1,Num(1)); Num det=v-2; away(det*det-t*t,1e-3); bool bad=branch(lt(det*det,t*t)); Thr h(thr::nullDeter(),t); check( throws([&]{ Homogr z(m); z.inverse(); })==bad, "inverse" ); }
CASE(matrices_equal) { Num t=tin(0.01,2), v=in("v",-3,3); int i=choose("i",8); Homogr a, b; b.set(i/3,i%3,Num(i%4==0)+v); away(v*v-t*t,1e-3); bool e=branch(lt(v*v,t*t)); Thr h(thr::nullDeter(),t); check( (a==b)==e && (a!=b)!=e, "equal" ); }
CASE(denominators)
{
	Num t=tin(0.01,0.9); int d=choose("d",7); Dir u=dirOf(d); double n=std::sqrt(u.x*u.x+u.y*u.y), c=std::fabs(u.x)/n, s=std::fabs(u.y)/n; Line2d l(1,2,1+u.x,2+u.y); away(t-c,1e-3); away(t-s,1e-3); bool bx=branch(gt(t,c)), by=branch(gt(t,s)); Thr h(thr::nullDenom(),t); check( throws([&]{ l.getCoord(GivenCoord::X,Num(3)); })==bx, "coord-x" ); check( throws([&]{ l.getCoord(GivenCoord::Y,Num(3)); })==by, "coord-y" );
}
CASE(infinity) { Num t=tin(0.01,2), w=in("w",-3,3); away(w*w-t*t,1e-3); bool i=branch(lt(w*w,t*t)); Point2d p(3,4,w); Thr h(thr::nullDenom(),t); check( p.isInf()==i, "infinite" ); Homogr m; m.set(2,2,w); check( throws([&]{ m.normalize(); })==i, "normalize" ); }
CASE(rectangles) { Num t=tin(0.01,2), x=in("x",-3,3); int k=choose("k",2); away(x*x-t*t,1e-3); bool e=branch(lt(x*x,t*t)); auto P=[&]( const Num& a, const Num& b ) { return k? Point2d(b,a) : Point2d(a,b); }; Point2d a=P(1,2), b=P(1+x,9); Thr h(thr::nullOrthogDistance(),t); check( throws([&]{ FRect r(a,b); })==e, "rect" ); check( throws([&]{ FRect r; r.set(a,b); })==e, "set" ); std::vector<Point2d> v{a,b}; check( throws([&]{ getBB(v); })==e, "box" ); check( throws([&]{ getBB(OPolyline(v)); })==e, "box-polyline" ); check( throws([&]{ getBB(std::vector<Segment>{Segment(a,b)}); })==e, "box-segments" ); }
CASE(polyline_points) { Num t=tin(0.01,2), x=in("x",-3,3); away(x*x-t*t,1e-3); bool e=branch(lt(x*x,t*t)); Pts v{ Point2d(0,0), Point2d(9,1), Point2d(9+x,1), Point2d(4,7) }; Thr h(thr::nullDistance(),t); check( throws([&]{ CPolyline p(v); })==e && throws([&]{ OPolyline p(v); })==e, "repeated" ); Pts z{ Point2d(0,0), Point2d(9,1), Point2d(4,7), Point2d(x,0) }; check( throws([&]{ CPolyline p(z); })==e, "closing" ); if( !e ) check( !throws([&]{ OPolyline p(z); }), "open" ); }
CASE(point_in_polygon) { Num t=tin(0.01,1), y=in("y",-1,9); int k=choose("k",2); CPolyline p( k? Pts{ Point2d(0,0), Point2d(20,0), Point2d(20,8), Point2d(0,8) } : Pts{ Point2d(0,0), Point2d(10,0), Point2d(20,0.5), Point2d(20,8), Point2d(0,8) } ); Num x=k?11:5; away(y-t,1e-3); away(y-8+t,1e-3); away(y,1e-3); away(y-8,1e-3); bool in=branch( And( gt(y,t), lt(y,8-t) ) ); Thr h(thr::nullDistance(),t); check( Point2d(x,y).isInside(p)==in, "inside" ); }
CASE(reduction) { int a=choose("a",3); static const double A[]={0.01,0.1,0.5}; Num y=in("y",-4,4); Pts v{ Point2d(0,0), Point2d(3,0), Point2d(6,y), Point2d(6,20) }; double k=std::tan(A[a]); Num g=y*y-9*k*k; away(g,1e-2); bool flat=branch(lt(g,0)); OPolyline p(v); Thr h(thr::nullAngleValue(),Num(A[a])); p.minimize(); check( p.size()==(flat?3u:4u), "removed" ); }
CASE(enclosing) { Num t=tin(0.001,0.5); Pts v{ Point2d(0,0), Point2d(8,0), Point2d(3,4), Point2d(4,1) }; Thr h(thr::nullDistance(),t); Circle c; c.set(v); std::vector<Fm> f; for( auto& p:v ) { Num r=c.radius()+t+1e-6; f.push_back( le( d2(p,c.center()), r*r ) ); } check( all(f), "within" ); check( le( c.radius(), Num(4.2) ), "small" ); }
CASE(ellipse_parameters) // denominator of the parameters of an ellipse: 4 a^2 b^2
{
	Num t=in("t",0.01,9), a=in("a",0.2,3); int k=choose("k",3); static const double A[]={0,0.5,M_PI/2}; Ellipse e(Num(1),Num(2),a,Num(0.5),Num(A[k])); Num g=a*a-t; away(g,1e-3); bool bad=branch(lt(g,0)); Thr h(thr::nullDenom(),t); check( throws([&]{ e.getCenter(); })==bad, "center" ); check( throws([&]{ e.getMajMin(); })==bad, "axes" );
}
