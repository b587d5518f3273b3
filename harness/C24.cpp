#include "geom.hpp"
// concrete directions of the major axis
static const Dir DU[6]={{1,0},{0,1},{0.6,0.8},{-0.8,0.6},{0.96,-0.28},{0.28,0.96}};
static Ellipse E( Num x, Num y, Num A, Num B, Dir u ) { return Ellipse( x,y,A,B, Num(std::atan2(u.y,u.x)) ); }
static Num form( const Point2d& p, Num cx, Num cy, Num A, Num B, Dir u )
{ Num x=p.getX()-cx, y=p.getY()-cy, s=x*u.x+y*u.y, t=y*u.x-x*u.y; return s*s*B*B+t*t*A*A-A*A*B*B; }
CASE(inside_point)
{
	int k=choose("k",6), s=choose("s",2); Num x=in("x",-5,6), y=in("y",-6,5); Point2d p(x,y);
	double A=s?3:2, B=s?1:1.5; Num v=form(p,0.5,-1,A,B,DU[k]); away(v,1e-2);
	Ellipse e=E(0.5,-1,A,B,DU[k]); bool i=branch( lt(v,0) );
	check( e.pointIsInside(p)==i, "member" ); check( p.isInside(e)==i, "predicate" );
}
CASE(inside_axes)
{
	int k=choose("k",3), w=choose("w",3); static const double Q[3][2]={{1,0.5},{-1.5,1},{0.3,-2}}; Num a=in("a",0.3,5); Point2d p(Q[w][0],Q[w][1]);
	away(a-2,0.05); bool m=branch( gt(a,2) ); Num v= m? form(p,0.25,0.5,a,2,DU[k]) : form(p,0.25,0.5,2,a,DU[k]); away(v,1e-2);
	check( p.isInside( E(0.25,0.5,a,2,DU[k]) )==branch( lt(v,0) ), "predicate" );
}
CASE(inside_center)
{
	int k=choose("k",6); Num x=in("x",-5,5), y=in("y",-5,5); Point2d p(0.5,1); Num v=form(p,x,y,3,2,DU[k]); away(v,1e-2);
	check( E(x,y,3,2,DU[k]).pointIsInside(p)==branch( lt(v,0) ), "predicate" );
}
CASE(inside_circle)
{
	Num x=in("x",-5,5), y=in("y",-5,5); Point2d p(x,y); Num v=sq(x-1)+sq(y-1)-4; away(v,1e-2);
	check( p.isInside( Ellipse(Circle(Point2d(1,1),2)) )==branch( lt(v,0) ), "circle" );
}
CASE(inside_set)
{
	int k=choose("k",3); Num x=in("x",-5,6), y=in("y",-6,5); Point2d p(x,y); Num v=form(p,0.5,-1,3,1.5,DU[k]); away(v,1e-2);
	Ellipse e=E(0.5,-1,3,1.5,DU[k]); std::vector<Point2d> s{ {9,9}, {0.5,-1}, p, {0.75,-1.25}, {-7,0} }; bool i=branch( lt(v,0) );
	auto r=getPtsInside(s,e); size_t n=2+(i?1:0); check( r.size()==n, "count" ); if( r.size()!=n ) return;
	check( nearpt(r[0],0.5,-1), "first" ); check( nearpt(r[n-1],0.75,-1.25), "last" ); if( i ) check( nearpt(r[1],x,y), "middle" );
}
CASE(axis_lines)
{
	int k=choose("k",6), w=choose("w",2), f=choose("free",2); Num x=w?Num(1):in("x",-9,9), y=w?Num(-2):in("y",-9,9), a=w?in("a",2.1,7):Num(3), b=w?in("b",0.2,2):Num(1);
	Ellipse e=E(x,y,a,b,DU[k]); auto l= f? getAxisLines(e) : e.getAxisLines(); Dir u=DU[k];
	check( near( evalLine(l.first,x,y),0,1e-5 ), "first-center" ); check( near( evalLine(l.first,x+u.x,y+u.y),0,1e-5 ), "first-major" );
	check( near( evalLine(l.second,x,y),0,1e-5 ), "second-center" ); check( near( evalLine(l.second,x-u.y,y+u.x),0,1e-5 ), "second-minor" );
}
CASE(axis_lines_symbolic)
{
	Num t=in("t",-3,3), c=std::cos(t), n=std::sin(t); away(c,1e-2); away(n,1e-2);
	Ellipse e(1,-2,3.,1.,t); auto l=e.getAxisLines();
	check( And( near( evalLine(l.first,1,-2),0,1e-5 ), near( evalLine(l.first,1+c,-2+n),0,1e-5 ) ), "major" );
	check( And( near( evalLine(l.second,1,-2),0,1e-5 ), near( evalLine(l.second,1-n,-2+c),0,1e-5 ) ), "minor" );
}
static void boxIs( const FRect& r, Num x, Num y, Num hx2, Num hy2, const std::string& w )
{
	auto p=r.getPts();
	check( And( near( p.first.getX()+p.second.getX(), 2*x, 1e-5 ), near( p.first.getY()+p.second.getY(), 2*y, 1e-5 ) ), w+"-center" );
	Num wx=r.width(), wy=r.height(); check( And( near( wx*wx, 4*hx2, 1e-4 ), near( wy*wy, 4*hy2, 1e-4 ) ), w+"-size" );
}
CASE(bounding_box)
{
	int k=choose("k",6), w=choose("w",2), f=choose("free",2); Num x=w?Num(1):in("x",-9,9), y=w?Num(-2):in("y",-9,9), a=w?in("a",2.1,7):Num(3), b=w?in("b",0.2,2):Num(1);
	Ellipse e=E(x,y,a,b,DU[k]); Dir u=DU[k]; Num hx=a*a*u.x*u.x+b*b*u.y*u.y, hy=a*a*u.y*u.y+b*b*u.x*u.x;
	boxIs( f? getBB(e) : e.getBB(), x,y,hx,hy,"bb" );
}
CASE(bounding_box_symbolic)
{
	Num t=in("t",-3,3), c=std::cos(t), n=std::sin(t); away(c,1e-2); away(n,1e-2);
	Ellipse e(1,-2,3.,1.,t); boxIs( e.getBB(), 1,-2, 9*c*c+n*n, 9*n*n+c*c, "bb" );
}
CASE(bounding_box_circle)
{
	Num x=in("x",-9,9), y=in("y",-9,9), R=in("R",0.1,9); Ellipse e(Circle(Point2d(x,y),R));
	boxIs( e.getBB(), x,y,R*R,R*R,"bb" );
	auto o=e.getOBB(); check( o.size()==4, "obb-size" ); check( near( o.area(), 4*R*R, 1e-4 ), "obb-area" );
}
static void obbIs( const CPolyline& o, Num x, Num y, Num ax, Num ay, Num bx, Num by, const std::string& w )
{
	check( o.size()==4, w+"-size" ); if( o.size()!=4 ) return;
	Pts v; for( auto& p:o.getPts() ) v.push_back(p);
	for( int i=0;i<4;i++ )
	{
		std::vector<Fm> f; for( auto& p:v ) f.push_back( nearpt( p, x+(i&1?-ax:ax)+(i&2?-bx:bx), y+(i&1?-ay:ay)+(i&2?-by:by), 1e-4 ) );
		check( any(f), w+"-corner" );
	}
	Num sx=v[0].getX()+v[2].getX(), sy=v[0].getY()+v[2].getY();
	check( And( near(sx,2*x,1e-4), near(sy,2*y,1e-4) ), w+"-order" );
}
CASE(oriented_box)
{
	int k=choose("k",6), w=choose("w",2), f=choose("free",2); Num x=w?Num(1):in("x",-9,9), y=w?Num(-2):in("y",-9,9), a=w?in("a",2.1,7):Num(3), b=w?in("b",0.2,2):Num(1);
	Ellipse e=E(x,y,a,b,DU[k]); Dir u=DU[k];
	obbIs( f? getOBB(e) : e.getOBB(), x,y, a*u.x,a*u.y, -b*u.y,b*u.x, "obb" );
}
CASE(area_symbolic)
{
	Num t=in("t",-3,3), c=std::cos(t), n=std::sin(t); away(c,1e-2); away(n,1e-2);
	Ellipse e(1,-2,3.,1.,t); check( near( e.area(), 3*M_PI, 1e-4 ), "area" ); check( near( area(e), 3*M_PI, 1e-4 ), "area-free" );
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",2) ); int k=choose("k",6); Dir u=DU[k]; Num x=in("x",-5,5), y=in("y",-5,5); Ellipse e( inPlace(P,0.5,-1), Num(3*P.s), Num(1.5*P.s), Num(std::atan2(u.y,u.x)) );
	Point2d p(x,y); Num v=form(p,0.5,-1,3,1.5,u); away(v,5e-2); check( inPlace(P,x,y).isInside(e)==branch( lt(v,0) ), "inside" );
	auto b=e.getBB().getPts(); Point2d f=fromPlace(P,b.first), g=fromPlace(P,b.second); Num hx=9*u.x*u.x+2.25*u.y*u.y, hy=9*u.y*u.y+2.25*u.x*u.x; check( And( near(f.getX()+g.getX(),1,1e-3), near(f.getY()+g.getY(),-2,1e-3) ), "box-center" ); check( And( near(sq(g.getX()-f.getX()),4*hx,1e-2), near(sq(g.getY()-f.getY()),4*hy,1e-2) ), "box-size" );
	auto o=e.getOBB(); Pts q; for( auto& z:o.getPts() ) q.push_back( fromPlace(P,z) ); check( q.size()==4, "oriented-size" ); if( q.size()==4 ) for( int i=0;i<4;i++ ) { Num X=0.5+(i&1?-3*u.x:3*u.x)+(i&2?1.5*u.y:-1.5*u.y), Y=-1+(i&1?-3*u.y:3*u.y)+(i&2?-1.5*u.x:1.5*u.x); check( Or( Or( nearpt(q[0],X,Y,1e-3), nearpt(q[1],X,Y,1e-3) ), Or( nearpt(q[2],X,Y,1e-3), nearpt(q[3],X,Y,1e-3) ) ), "oriented-corner" ); }
}
