#include "geom.hpp"
// one end on each circle, the segment orthogonal to the radius there
static Fm touches( const Point2d& p, const Point2d& q, const Circle& c, double tol )
{ Num dx=p.getX()-c.center().getX(), dy=p.getY()-c.center().getY(); return And( near( dx*dx+dy*dy, c.radius()*c.radius(), tol ), near( dx*(q.getX()-p.getX())+dy*(q.getY()-p.getY()), 0, tol ) ); }
static void tangents( const Circle& a, const Circle& b, const std::pair<Segment,Segment>& r, const std::string& w, double tol=1e-5 )
{
	for( auto& s:{r.first,r.second} )
	{
		auto p=s.getPts(); check( Or( And( touches(p.first,p.second,a,tol), touches(p.second,p.first,b,tol) ), And( touches(p.first,p.second,b,tol), touches(p.second,p.first,a,tol) ) ), w+"-contact" );
		// external: both centers on the same side
		Num f=cross(p.first,p.second,a.center()), g=cross(p.first,p.second,b.center()); check( ge( f*g, 0 ), w+"-external" );
	}
	// one on each side of the line of the centers
	auto p=r.first.getPts(), q=r.second.getPts(); Num f=cross(a.center(),b.center(),p.first), g=cross(a.center(),b.center(),q.first); check( le( f*g, 0 ), w+"-sides" );
}
static Point2d at( Dir d, Num h, Num x=0, Num y=0 ) { return Point2d( x+h*d.x, y+h*d.y ); }
// same radius
CASE(same_radius)
{
	int d=choose("d",5); Num r=in("r",0.1,5), h=in("h",0.2,9), x=TH(Num(1),in("x",-5,5)); Circle a(Point2d(x,2),r), b(at(dirOf(d),h,x,2),r); tangents( a,b, getTanSegs(a,b), "tan" );
}
// different radii, in a rational right triangle
CASE(rational)
{
	int d=choose("d",5), k=choose("k",3), s=choose("s",2); Num r=in("r",0.1,5); double D[3]={3,-1.4,4}, H[3]={5,5,5}; Circle a(Point2d(1,2),r+(D[k]<0?1.4:D[k])), b(at(dirOf(d),H[k],1,2),r);
	auto t= s? getTanSegs(b,a) : getTanSegs(a,b); tangents( a,b,t,"tan" );
}
CASE(moved)
{
	int k=choose("k",2); Num x=in("x",-9,9), y=in("y",-9,9); Circle a(Point2d(x,y),Num(4)), b( k? Point2d(x+3,y+4) : Point2d(x-5,y), Num(1) ); tangents( a,b, getTanSegs(a,b), "tan", 1e-4 );
}
CASE(scaled)
{
	int d=choose("d",5); Num h=in("h",0.5,9); Circle a(Point2d(0,0),h*1.0), b(at(dirOf(d),h*2.5),h*0.3); tangents( a,b, getTanSegs(a,b), "tan", 1e-4 );
}
// any distance
CASE(distance)
{
	int d=choose("d",2); Num h=in("h",1.7,9); Circle a(Point2d(0,0),Num(2)), b(at(dirOf(d),h),Num(0.5)); tangents( a,b, getTanSegs(a,b), "tan", 1e-4 );
}
// any radius
CASE(radius)
{
	int d=choose("d",TH(1,2)); Num r=in("r",1.2,6); away(r-1,1e-3); Circle a(Point2d(0,0),r), b(at(dirOf(d),Num(5.5)),Num(1)); tangents( a,b, getTanSegs(a,b), "tan", 1e-4 );
}
// no tangent: one circle inside the other, or the same one
CASE(inside)
{
	int d=choose("d",5), s=choose("s",2); Num h=in("h",0.1,1.9); Circle a(Point2d(0,0),Num(3)), b(at(dirOf(d),h),Num(1)); check( throws([&]{ if( s ) getTanSegs(b,a); else getTanSegs(a,b); }), "inside" );
}
CASE(concentric) { Num r=in("r",0.1,5), x=in("x",-9,9); away(r-2,1e-3); Circle a(Point2d(x,1),r), b(Point2d(x,1),Num(2)); check( throws([&]{ getTanSegs(a,b); }) && throws([&]{ getTanSegs(b,a); }), "concentric" ); check( throws([&]{ getTanSegs(a,a); }), "identical" ); }
// line and segment through the centers
CASE(centers)
{
	Num x=in("x",-9,9), y=in("y",-9,9), r=in("r",0.1,5); away(x-1,1e-3); Circle a(Point2d(x,y),r), b(Point2d(1,2),Num(2)); Segment s=getSegment(a,b); auto p=s.getPts(); check( Or( And( nearpt(p.first,x,y), nearpt(p.second,1,2) ), And( nearpt(p.second,x,y), nearpt(p.first,1,2) ) ), "segment" );
	Line2d l=getLine(a,b); check( And( near( evalLine(l,x,y),0,1e-5 ), near( evalLine(l,1,2),0,1e-5 ) ), "line" ); check( And( nearpt( center(a),x,y ), near( radius(a), r ) ), "free" );
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",5), k=choose("k",3); Num r=in("r",0.1,5); double D[3]={3,0,4}; Dir u=dirOf(d); Circle a(inPlace(P,1,2),P.s*(r+D[k])), b(inPlace(P,1+5*u.x,2+5*u.y),P.s*r); auto t=getTanSegs(a,b); auto L=[&]( const Segment& s ) { auto z=s.getPts(); return Segment( fromPlace(P,z.first), fromPlace(P,z.second) ); };
	tangents( Circle(Point2d(1,2),r+D[k]), Circle(Point2d(1+5*u.x,2+5*u.y),r), std::make_pair(L(t.first),L(t.second)), "tan", 1e-4 );
}
// radii close to each other
CASE(close_radius)
{
	int d=choose("d",5), k=choose("k",3), s=choose("s",2); double E[3]={0.02,2e-3,2e-5}; Num r=in("r",0.1,5); Circle a(Point2d(1,2),r), b(at(dirOf(d),Num(7),1,2),r+E[k]); tangents( a,b, s? getTanSegs(b,a) : getTanSegs(a,b), "tan", 1e-6*(k==2?.1:1) );
}
