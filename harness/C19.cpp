#include "geom.hpp"
static const double M=1e-3;
// point inside the rectangle [x0,x1]x[y0,y1] / the circle; inputs within M of the edge are excluded
static bool inRect( const Point2d& p, Num x0, Num y0, Num x1, Num y1 )
{
	for( const Num& v:{p.getX()-x0,p.getX()-x1,p.getY()-y0,p.getY()-y1} ) away(v,M);
	return branch( And( gt(p.getX(),x0), lt(p.getX(),x1), gt(p.getY(),y0), lt(p.getY(),y1) ) );
}
static bool inCircle( const Point2d& p, const Point2d& c, Num R )
{ Num v=d2(p,c)-R*R; away(v,1e-2); return branch( lt(v,0) ); }
// ellipse of half-axes A,B along (u,-v / v,u)
static bool inEllipse( const Point2d& p, const Point2d& c, double A, double B, Dir u )
{
	Num x=p.getX()-c.getX(), y=p.getY()-c.getY(), s=x*u.x+y*u.y, t=y*u.x-x*u.y, v=s*s/(A*A)+t*t/(B*B)-1;
	away(v,1e-2); return branch( lt(v,0) );
}
static Pts rc( Num x0, Num y0, Num x1, Num y1 ) { return { Point2d(x0,y0), Point2d(x1,y0), Point2d(x1,y1), Point2d(x0,y1) }; }
static Ellipse ell( const Point2d& c, double A, double B, int z ) { return Ellipse( c, A, B, z? std::atan2(0.8,0.6) : 0. ); }
static const double RX[2][4]={{-1,-2,3,1},{0.5,0.25,5,6}};
CASE(point_rect)
{
	int k=choose("k",2), o=choose("o",4); auto r=RX[k]; Num x=in("x",-4,7), y=in("y",-4,7); Point2d p(x,y);
	bool e=inRect( p, r[0],r[1],r[2],r[3] );
	Point2d a( r[o&1?2:0], r[o&2?3:1] ), b( r[o&1?0:2], r[o&2?1:3] );
	check( p.isInside(FRect(a,b))==e, "rect" ); check( p.isInside(a,b)==e, "rect-points" );
}
CASE(point_rect_edge)
{
	int k=choose("k",2), s=choose("s",4); auto r=RX[k]; Num t=in("t",-5,8);
	Point2d p= s==0? Point2d(t,r[1]) : s==1? Point2d(t,r[3]) : s==2? Point2d(r[0],t) : Point2d(r[2],t);
	check( !p.isInside(FRect(Point2d(r[0],r[1]),Point2d(r[2],r[3]))), "edge" );
}
CASE(point_circle)
{
	Num x=in("x",-4,4), y=in("y",-4,4), R=in("R",0.2,5); Point2d p(x,y), c(0.5,-1);
	bool e=inCircle(p,c,R);
	check( p.isInside(Circle(c,R))==e, "circle" ); check( p.isInside(c,R)==e, "center-radius" );
	check( !Line2d(c,Point2d(9,9)).isInside(Circle(c,R)), "line" );
}
CASE(point_circle_edge)
{
	Num R=in("R",0.2,5); int d=choose("d",2); Point2d c(2,-1), p( c.getX()+ (d?R*0.6:R), c.getY()- (d?R*0.8:Num(0)) );
	Circle z(c,R); bool a=p.isInside(z);
	if( !d ) check( !a, "edge" );
	check( !Point2d(c.getX()+(d?R*0.6:R)*1.001,c.getY()-(d?R*0.8:Num(0))*1.001).isInside(z), "out" );
	check( Point2d(c.getX()+(d?R*0.6:R)*0.999,c.getY()-(d?R*0.8:Num(0))*0.999).isInside(z), "in" );
}
CASE(point_ellipse)
{
	int k=choose("k",2); Num x=in("x",-5,5), y=in("y",-5,5); Point2d p(x,y), c(0.5,-1);
	bool e=inEllipse( p,c,3,1.5, k?Dir{0.6,0.8}:Dir{1,0} );
	check( p.isInside(ell(c,3,1.5,k))==e, "ellipse" );
}
// ---- segments
CASE(segment_convex)
{
	int w=choose("w",3), k=choose("k",2); static const double Q[2][2]={{1,0.5},{2.4,-1.2}};
	Num x=in("x",-5,6), y=in("y",-5,6); Point2d a(x,y), b(Q[k][0],Q[k][1]); assume( ge( d2(a,b),0.01 ) );
	Segment s(a,b); OSegment o(a,b);
	if( w==0 ) { bool ia=inRect(a,-1,-2,2,1.5), ib=inRect(b,-1,-2,2,1.5); FRect r(Point2d(-1,-2),Point2d(2,1.5)); check( s.isInside(r)==(ia&&ib), "rect" ); check( o.isInside(r)==(ia&&ib), "rect-oriented" ); check( !r.isInside(s), "reverse" ); }
	if( w==1 ) { Circle z(Point2d(0,0.5),2); bool ia=inCircle(a,z.center(),2), ib=inCircle(b,z.center(),2); check( s.isInside(z)==(ia&&ib), "circle" ); check( o.isInside(z)==(ia&&ib), "circle-oriented" ); }
	if( w==2 ) { Point2d c(0.5,0); bool ia=inEllipse(a,c,3,1.5,Dir{1,0}), ib=inEllipse(b,c,3,1.5,Dir{1,0}); auto e=ell(c,3,1.5,0); check( s.isInside(e)==(ia&&ib), "ellipse" ); check( o.isInside(e)==(ia&&ib), "ellipse-oriented" ); }
}
CASE(segment_polygon)
{
	int k=choose("k",TH(3,4)), d=choose("d",TH(3,4)); static const double E[4][2]={{1.5,0.35},{-0.4,2.6},{2.3,-0.45},{0.15,0.25}}, Y[3]={0.55,1.35,2.15};
	Num x=in("x",-3,5), y= TH(0,1)? in("y",-3,5) : Num(Y[choose("y",3)]); Point2d a(x,y), b(x+E[d][0],y+E[d][1]);
	Pts p=shape(k), e; auto S=sidesOf(p,true);
	for( auto& s:S ) crossing( a,b,s.a,s.b,e );
	bool i= e.empty() && inPoly(a,S);
	check( Segment(a,b).isInside(CPolyline(p))==i, "polygon" );
	check( OSegment(b,a).isInside(CPolyline(p))==i, "polygon-oriented" );
	check( !Segment(a,b).isInside(OPolyline(p)), "open" );
}
// ---- rectangles
CASE(rect_rect)
{
	Num x=in("x",-3,5), y=in("y",-3,5); static const double S[3][2]={{1,2},{5,0.5},{4.5,4}}; int k=choose("k",3); double w=S[k][0], h=S[k][1];
	FRect a(Point2d(x,y),Point2d(x+w,y+h)), b(Point2d(-1,-2),Point2d(4,3));
	bool ia=inRect(Point2d(x,y),-1,-2,4,3), ib=inRect(Point2d(x+w,y+h),-1,-2,4,3);
	check( a.isInside(b)==(ia&&ib), "rect" );
	bool ja=inRect(Point2d(-1,-2),x,y,x+w,y+h), jb=inRect(Point2d(4,3),x,y,x+w,y+h);
	check( b.isInside(a)==(ja&&jb), "rect-back" );
	check( !a.isInside(a), "itself" );
}
CASE(rect_round)
{
	int w=choose("w",2); Num x=in("x",-4,3), y=in("y",-3,3); double W=1.5, H=0.75;
	FRect a(Point2d(x,y),Point2d(x+W,y+H)); Pts q=rc(x,y,x+W,y+H); bool e=true; Point2d c(0.5,0);
	if( w==0 ) { for( auto& p:q ) if( !inCircle(p,c,2.5) ) { e=false; } check( a.isInside(Circle(c,2.5))==e, "circle" ); }
	else { for( auto& p:q ) if( !inEllipse(p,c,3,1.5,Dir{1,0}) ) { e=false; } check( a.isInside(ell(c,3,1.5,0))==e, "ellipse" ); }
}
CASE(rect_polygon)
{
	int k=choose("k",TH(3,4)), d=choose("d",2); static const double E[2][2]={{0.6,0.35},{1.7,0.15}}, Y[3]={0.55,1.35,-0.35};
	Num x=in("x",-3,5), y= TH(0,1)? in("y",-3,5) : Num(Y[choose("y",3)]); Num x1=x+E[d][0], y1=y+E[d][1];
	Pts p=shape(k), q=rc(x,y,x1,y1), e; auto S=sidesOf(p,true);
	for( auto& s:S ) for( auto& t:sidesOf(q,true) )
	{
		bool par= s.a.getX()==s.b.getX() ? t.a.getX()==t.b.getX() : s.a.getY()==s.b.getY() ? t.a.getY()==t.b.getY() : false;
		if( par ) { away( s.a.getX()==s.b.getX() ? s.a.getX()-t.a.getX() : s.a.getY()-t.a.getY(), 1e-2 ); continue; }
		crossing( s.a,s.b,t.a,t.b,e );
	}
	bool i= e.empty() && inPoly(q[0],S);
	FRect r(q[0],q[2]);
	check( r.isInside(CPolyline(p))==i, "polygon" ); check( !r.isInside(OPolyline(p)), "open" );
}
// ---- circles
CASE(circle_circle)
{
	Num x=in("x",-3,3), y=in("y",-3,3); int k=choose("k",3); static const double R[3]={0.5,2,3.5}; double r=R[k], Q=2.5;
	Circle a(Point2d(x,y),r), b(Point2d(0.5,-0.5),Q); Num d=d2(a.center(),b.center());
	bool e=false, f=false;
	if( r<Q ) { away( d-(Q-r)*(Q-r), 1e-2 ); e=branch( lt(d,(Q-r)*(Q-r)) ); } else { away( d-(Q-r)*(Q-r), 1e-2 ); f=branch( lt(d,(Q-r)*(Q-r)) ); }
	check( a.isInside(b)==e, "circle" ); check( b.isInside(a)==f, "circle-back" ); check( !a.isInside(a), "itself" );
}
CASE(circle_radius)
{
	Num r=in("r",0.1,6), x=in("x",-3,3); Circle a(Point2d(x,1),r), b(Point2d(0.5,1),2.5); Num d=x-0.5;
	away(d-(2.5-r),M); away(-d-(2.5-r),M); away(d-(r-2.5),M); away(-d-(r-2.5),M);
	check( a.isInside(b)==branch( And( lt(d,2.5-r), lt(-d,2.5-r) ) ), "circle" );
	check( b.isInside(a)==branch( And( lt(d,r-2.5), lt(-d,r-2.5) ) ), "circle-back" );
}
CASE(circle_rect)
{
	Num x=in("x",-3,6), y=in("y",-4,5), r=in("r",0.1,4); int o=choose("o",4);
	for( const Num& v:{x-r+1,x+r-4,y-r+2,y+r-3} ) away(v,M);
	bool e=branch( And( gt(x-r,-1), lt(x+r,4), gt(y-r,-2), lt(y+r,3) ) );
	Point2d a(o&1?4:-1,o&2?3:-2), b(o&1?-1:4,o&2?-2:3); Circle c(Point2d(x,y),r);
	check( c.isInside(FRect(a,b))==e, "rect" ); check( c.isInside(a,b)==e, "rect-points" );
}
CASE(circle_polygon)
{
	int k=choose("k",TH(3,4)), z=choose("z",2); static const double C[2][2]={{1,0.7},{2.6,0.1}}; Num r=in("r",0.1,4); Point2d c(C[z][0],C[z][1]);
	Pts p=shape(k); auto S=sidesOf(p,true); unsigned n=0; for( auto& s:S ) n+=crossingCircle(c,r,s);
	bool in=inPoly(c,S), out= branch( gt( d2(p[0],c), r*r ) );
	check( Circle(c,r).isInside(CPolyline(p))==( n==0 && in && out ), "polygon" );
	check( !Circle(c,r).isInside(OPolyline(p)), "open" );
}
CASE(circle_polygon_moving)
{
	int k=choose("k",TH(2,4)), z=choose("z",2); Num x=in("x",-3,5); Point2d c(x,z?0.75:1.9); double r= z? 0.35 : 3.1;
	Pts p=shape(k); auto S=sidesOf(p,true); unsigned n=0; for( auto& s:S ) n+=crossingCircle(c,r,s);
	bool in=inPoly(c,S), out= branch( gt( d2(p[0],c), r*r ) );
	check( Circle(c,r).isInside(CPolyline(p))==( n==0 && in && out ), "polygon" );
}
// ---- polylines
CASE(polyline_convex)
{
	int w=choose("w",3), k=choose("k",2), o=choose("o",2); Num x=in("x",-4,5), y=in("y",-4,5);
	Pts p= k? Pts{ Point2d(0,0), Point2d(1,0.5), Point2d(0.25,1), Point2d(0.5,0.5) } : Pts{ Point2d(-1,0), Point2d(1.5,-0.5), Point2d(0.3,0.8) };
	int i=choose("i",2); p[i]=Point2d(x,y); for( size_t j=0;j<p.size();j++ ) if( (int)j!=i ) assume( ge( d2(p[j],p[i]),0.01 ) );
	bool e=true;
	auto go=[&]( const auto& X ) { if( o ) { check( OPolyline(p).isInside(X)==e, "open-inside" ); check( !X.isInside(OPolyline(p)), "inside-open" ); } else check( CPolyline(p).isInside(X)==e, "closed-inside" ); };
	if( w==0 ) { for( auto& q:p ) if( !inRect(q,-1.2,-2,2,1.5) ) e=false; go( FRect(Point2d(-1.2,-2),Point2d(2,1.5)) ); }
	if( w==1 ) { for( auto& q:p ) if( !inCircle(q,Point2d(0.2,0.5),2) ) e=false; go( Circle(Point2d(0.2,0.5),2) ); }
	if( w==2 ) { for( auto& q:p ) if( !inEllipse(q,Point2d(0.5,0),3,1.5,Dir{1,0}) ) e=false; go( ell(Point2d(0.5,0),3,1.5,0) ); }
}
CASE(polyline_polygon)
{
	int k=choose("k",TH(2,4)), o=choose("o",2), t=choose("t",2); static const double Y[3]={0.45,1.15,0.85};
	Num x=in("x",-3,5), y= TH(0,1)? in("y",-3,5) : Num(Y[choose("y",2)]);
	Pts p=shape(k), q=moved( t? Pts{ Point2d(0,0), Point2d(0.7,0.1), Point2d(0.35,0.4) } : Pts{ Point2d(0,0), Point2d(1.9,-0.2), Point2d(0.35,1.1) }, x, y ), e; auto S=sidesOf(p,true);
	for( auto& s:S ) for( auto& u:sidesOf(q,!o) ) crossing( s.a,s.b,u.a,u.b,e );
	bool i= e.empty() && inPoly(q[0],S);
	if( o ) { check( OPolyline(q).isInside(CPolyline(p))==i, "open-inside" ); check( !OPolyline(q).isInside(OPolyline(p)), "open-open" ); check( !CPolyline(p).isInside(OPolyline(q)), "inside-open" ); }
	else { check( CPolyline(q).isInside(CPolyline(p))==i, "closed-inside" ); check( !CPolyline(q).isInside(OPolyline(p)), "closed-open" ); bool b= e.empty() && inPoly(p[0],sidesOf(q,true)); check( CPolyline(p).isInside(CPolyline(q))==b, "closed-inside-back" ); }
}
// one moving vertex of a quadrilateral, pentagon or hexagon
CASE(polyline_vertex)
{
	int n=4+choose("n",3), o=choose("o",2), d=choose("d",TH(1,2)); Num t=in("t",0.3,3.6);
	Pts p=shape(2), q{ {0.2,0.3}, {3.5,0.5}, d? Point2d(t,0.9+0.1*t) : Point2d(0.8+0.2*t,t), {0.4,3.2}, {0.3,2.1}, {0.25,1.2} }, e; q.resize(n); auto S=sidesOf(p,true);
	for( auto& s:S ) for( auto& u:sidesOf(q,!o) ) crossing( s.a,s.b,u.a,u.b,e );
	bool i= e.empty() && inPoly(q[2],S);
	if( o ) check( OPolyline(q).isInside(CPolyline(p))==i, "open" ); else check( CPolyline(q).isInside(CPolyline(p))==i, "closed" );
}
CASE(polyline_itself)
{
	int k=choose("k",5); Num x=in("x",-2,2); Pts p=shape(k); p[0]=Point2d(p[0].getX()-0.5+x/8,p[0].getY()-0.25);
	CPolyline c(p); check( !c.isInside(c), "closed" ); OPolyline o(p); check( !o.isInside(o), "open" ); check( !o.isInside(c), "outline" );
}
// ---- never inside
template<class A> static void never( const A& a, const char* w )
{
	Point2d p(0.1,0.2); Line2d l(Point2d(0,0.1),Point2d(3,0.2)); Segment s(Point2d(-9,0.1),Point2d(9,0.5)); OSegment os(Point2d(-9,0.1),Point2d(9,0.5)); OPolyline o(Pts{Point2d(-9,-9),Point2d(9,-9),Point2d(0,9)});
	check( !a.isInside(p) && !a.isInside(l) && !a.isInside(s) && !a.isInside(os) && !a.isInside(o), w );
}
CASE(never_inside)
{
	Num x=in("x",-5,5), y=in("y",-5,5); clearly( x-8,0.1 );
	never( Point2d(x,y), "point" ); never( Line2d(Point2d(x,y),Point2d(8,9)), "line" ); never( Segment(Point2d(x,y),Point2d(8,9)), "segment" );
	never( OSegment(Point2d(x,y),Point2d(8,9)), "osegment" ); never( FRect(Point2d(x,y),Point2d(8,9)), "rect" ); never( Circle(Point2d(x,y),2.), "circle" );
	never( CPolyline(Pts{Point2d(x,y),Point2d(8,9),Point2d(7,-9)}), "closed" ); never( OPolyline(Pts{Point2d(x,y),Point2d(8,9),Point2d(7,-9)}), "open" );
	never( Ellipse(Point2d(1,2),3.,2.), "ellipse" );
	Line2d l(Point2d(x,y),Point2d(8,9));
	check( !l.isInside(FRect(Point2d(-20,-20),Point2d(20,20))) && !l.isInside(Circle(Point2d(0,0),50.)) && !l.isInside(CPolyline(shape(4))) && !l.isInside(Ellipse(Point2d(0,0),50.,40.)), "line-in" );
}
CASE(points_of_a_set)
{
	// the points inside, in their order
	int w=choose("w",4); Num x=in("x",-3,5), y= w==3? Num(1.3) : in("y",-3,5);
	std::vector<Point2d> v{ Point2d(0.5,0.5), Point2d(x,y), Point2d(9,9), Point2d(1.5,1.25), Point2d(x+1,y) }, e, r;
	auto run=[&]( const auto& X, auto oracle ) { for( auto& p:v ) if( oracle(p) ) e.push_back(p); r=getPtsInside(v,X); };
	if( w==0 ) run( FRect(Point2d(0,0),Point2d(2,3)), []( const Point2d& p ){ return inRect(p,0,0,2,3); } );
	if( w==1 ) run( Circle(Point2d(1,1),2.), []( const Point2d& p ){ return inCircle(p,Point2d(1,1),2); } );
	if( w==2 ) run( Ellipse(Point2d(1,1),3.,1.5), []( const Point2d& p ){ return inEllipse(p,Point2d(1,1),3,1.5,Dir{1,0}); } );
	if( w==3 ) run( CPolyline(shape(2)), []( const Point2d& p ){ return inPoly(p,sidesOf(shape(2),true)); } );
	check( r.size()==e.size(), "count" ); if( r.size()!=e.size() ) return;
	std::vector<Fm> f; for( size_t i=0;i<r.size();i++ ) f.push_back( nearpt(r[i],e[i]) );
	check( all(f), "same" );
}
CASE(empty_polylines)
{
	Num x=in("x",-9,9), w=in("w",1,9); CPolyline e; OPolyline o; Circle c( Point2d(x,0), w ); FRect r( Point2d(x,0), Point2d(x+w,w) ); CPolyline p( Pts{ Point2d(x,0), Point2d(x+w,0), Point2d(x,w) } ); Ellipse l( x, w, Num(3), Num(2), Num(0.5) );
	check( !e.isInside(c) && !o.isInside(c) && !e.isInside(r) && !o.isInside(r) && !e.isInside(p) && !o.isInside(p) && !e.isInside(l) && !o.isInside(l), "empty" );
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int w=choose("w",6); Num x=in("x",-5,6), y=in("y",-5,6); Point2d p(x,y), q=inPlace(P,x,y), b(1,0.5), c=inPlace(P,1,0.5); FRect r( inPlace(P,-1,-2), inPlace(P,3,1) ); Circle k( inPlace(P,0.5,-1), Num(3*P.s) );
	if( w==0 ) { bool e=inRect(p,-1,-2,3,1); check( q.isInside(r)==e, "point-rect" ); assume( ge( d2(p,b), 1e-2 ) ); check( Segment(q,c).isInside(r)==e && OSegment(c,q).isInside(r)==e, "segment-rect" ); }
	if( w==1 ) { bool e=inCircle(p,Point2d(0.5,-1),3); check( q.isInside(k)==e, "point-circle" ); assume( ge( d2(p,b), 1e-2 ) ); check( Segment(q,c).isInside(k)==e && OSegment(q,c).isInside(k)==e, "segment-circle" ); }
	if( w==2 ) { assume( And( ge(y,0.1), ge(x,-4) ) ); Num R=y/2; Circle m( inPlace(P,x/3,-0.5), P.s*R ); Num cx=x/3; for( Num g:{cx-R+1,3-cx-R,-0.5-R+2,1+0.5-R} ) away(g,M); check( m.isInside(r)==branch( And( gt(cx-R,-1), lt(cx+R,3), lt(R,1.5) ) ), "circle-rect" ); Num h=d2(Point2d(cx,-0.5),Point2d(0.5,-1))-sq(3-R); away(h,1e-2); away(R-3,1e-2); check( m.isInside(k)==branch( And( lt(h,0), lt(R,3) ) ), "circle-circle" ); }
	if( w==3 ) { away(x-b.getX(),0.05); away(y-b.getY(),0.05); FRect f(q,c); bool e=inRect(p,-1,-2,3,1); check( f.isInside(r)==e, "rect-rect" ); bool i=inCircle(p,Point2d(0.5,-1),3)&&inCircle(Point2d(x,0.5),Point2d(0.5,-1),3)&&inCircle(Point2d(1,y),Point2d(0.5,-1),3); check( f.isInside(k)==i, "rect-circle" ); }
	if( w==4 ) { Pts t{ Point2d(-0.5,0), Point2d(2,-1), p }; away( cross(t[0],t[1],p), 0.05 ); Pts g; for( auto& z:t ) g.push_back( inPlace(P,z.getX(),z.getY()) ); bool e=inRect(p,-1,-2,3,1), i=inCircle(p,Point2d(0.5,-1),3); check( CPolyline(g).isInside(r)==e && OPolyline(g).isInside(r)==e, "polyline-rect" ); check( CPolyline(g).isInside(k)==i && OPolyline(g).isInside(k)==i, "polyline-circle" ); }
	if( w==5 ) { Place Q=P; Q.x=P.x+0.5*P.s; Ellipse l( inPlace(P,0.5,-1), Num(3*P.s), Num(1.5*P.s), Num(std::atan2(0.8,0.6)) ); if( P.x>-20000 ) check( q.isInside(l)==inEllipse(p,Point2d(0.5,-1),3,1.5,Dir{0.6,0.8}), "point-ellipse" ); }
}
