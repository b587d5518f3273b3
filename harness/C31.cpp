#include "geom.hpp"
// the box is the smallest one around the points: all within, each side touched by one of them
static void isBox( const FRect& r, const Pts& p, const std::string& w, double tol=1e-6 )
{
	auto q=r.getPts(); std::vector<Fm> f, l,b,R,t;
	for( auto& z:p )
	{
		f.push_back( And( ge(z.getX(),q.first.getX()-tol), ge(z.getY(),q.first.getY()-tol), le(z.getX(),q.second.getX()+tol), le(z.getY(),q.second.getY()+tol) ) );
		l.push_back( near(z.getX(),q.first.getX(),tol) ); R.push_back( near(z.getX(),q.second.getX(),tol) ); b.push_back( near(z.getY(),q.first.getY(),tol) ); t.push_back( near(z.getY(),q.second.getY(),tol) );
	}
	check( all(f), w+"-holds" ); check( And( And(any(l),any(R)), And(any(b),any(t)) ), w+"-smallest" );
}
static FRect toRect( const std::pair<Point2d,Point2d>& p ) { return FRect(p.first,p.second); }
static Pts bpts( int n ) { Pts p{ {0,0}, {4,-1}, {5,3}, {2,4.5}, {-1.5,2} }; p.resize(n); return p; }
static Pts sympts( int n, int k, Num x, Num y )
{ Pts p=bpts(n); p[k]=Point2d(x,y); for( int i=0;i<n;i++ ) if( i!=k ) { away( p[i].getX()-x, 1e-3 ); away( p[i].getY()-y, 1e-3 ); } return p; }
CASE(points)
{
	int n=2+choose("n",4), k=choose("k",2), t=choose("type",3); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=sympts(n,k,x,y);
	if( t==0 ) isBox( getBB(p), p, "vector" ); if( t==1 ) { std::list<Point2d> l(p.begin(),p.end()); isBox( getBB(l), p, "list" ); }
	if( t==2 ) { std::array<Point2d,3> a{p[0],p[1],Point2d(7,8)}; isBox( getBB(a), Pts(a.begin(),a.end()), "array" ); }
}
template<class P> void polyCase()
{
	int n=2+choose("n",4), k=choose("k",2), f=choose("f",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=sympts(n,k,x,y); P a(p);
	isBox( f? getBB(a) : a.getBB(), p, "box" ); check( a.size()==size_t(n), "size" );
}
CASE(polygon) { polyCase<CPolyline>(); }
CASE(polyline) { polyCase<OPolyline>(); }
CASE(polyline_changed)
{
	int w=choose("w",4); Num x=in("x",-4,4), t=in("t",-4,4); Pts p{ {0,0}, {5,1}, {x,6} }; CPolyline a(p); OPolyline o(p); a.getBB(); o.getBB();
	if( w==0 ) { a.translate(t,1); o.translate(t,1); p=moved(p,t,1); } if( w==1 ) { a.moveTo(t,2); o.moveTo(t,2); p=moved(p,t,2); }
	if( w==2 ) { p.push_back( Point2d(7,-1) ); a.set(p); o.set(p); } if( w==3 ) { a.rotate(Rotate::CCW); o.rotate(Rotate::CCW); for( auto& q:p ) q=Point2d(-q.getY(),q.getX()); }
	isBox( a.getBB(), p, "closed" ); isBox( o.getBB(), p, "open" );
}
CASE(flat)
{
	int w=choose("w",2), n=2+choose("n",2), t=choose("type",4); Num c=in("c",-9,9); Pts p{ {0,1}, {3,2}, {5,3} }; p.resize(n); for( auto& q:p ) { if( w ) q=Point2d(q.getX(),c); else q=Point2d(c,q.getY()); }
	bool r= t==0? throws([&]{ getBB(p); }) : t==1? throws([&]{ CPolyline(p).getBB(); }) : t==2? throws([&]{ getBB(OPolyline(p)); }) : throws([&]{ getBB( std::vector<Segment>{ Segment(p[0],p[1]) } ); });
	check( r, "flat" );
}
CASE(nothing)
{
	Num x=in("x",-9,9); Pts e, one{ {x,1} }; std::vector<Segment> s; std::vector<Circle> c; std::vector<Line2d> l{ Line2d(Point2d(0,0),Point2d(1,2)) };
	check( throws([&]{ getBB(e); }) && throws([&]{ getBB(one); }) && throws([&]{ getBB(s); }) && throws([&]{ getBB(c); }), "empty" ); check( throws([&]{ getBB(l); }), "lines" );
	check( throws([&]{ CPolyline().getBB(); }) && throws([&]{ getBB(OPolyline()); }), "polyline" );
}
CASE(circle)
{
	int f=choose("f",3); Num x=in("x",-9,9), y=in("y",-9,9), r=in("r",0.1,5); Circle c(Point2d(x,y),r); FRect b= f==0? c.getBB() : f==1? getBB(c) : getBB( std::vector<Circle>{c} );
	isBox( b, Pts{ {x-r,y}, {x+r,y}, {x,y-r}, {x,y+r} }, "box" );
}
CASE(rectangle)
{
	int f=choose("f",3); Num x=in("x",-9,9), y=in("y",-9,9), w=in("w",0.1,5), h=in("h",0.1,5); Point2d a(x,y), b(x+w,y+h); FRect r(b,a);
	isBox( f==0? r.getBB() : f==1? getBB(r) : getBB( std::list<FRect>{r} ), Pts{a,b}, "box" );
}
CASE(circles)
{
	int t=choose("type",3); Num x=in("x",-9,9), y=in("y",-9,9), r=in("r",0.1,5); std::vector<Circle> c{ Circle(Point2d(1,1),2), Circle(Point2d(x,y),r), Circle(Point2d(5,-2),1) }; Pts p{ {-1,-1}, {3,3}, {4,-3}, {6,-1}, {x-r,y-r}, {x+r,y+r} };
	if( t==0 ) isBox( getBB(c), p, "vector" ); if( t==1 ) { std::list<Circle> l(c.begin(),c.end()); isBox( getBB(l), p, "list" ); } if( t==2 ) { std::array<Circle,3> a{c[0],c[1],c[2]}; isBox( getBB(a), p, "array" ); }
}
CASE(rectangles)
{
	int t=choose("type",3); Num x=in("x",-9,9), y=in("y",-9,9), w=in("w",0.1,5); std::vector<FRect> c{ FRect(0,0,2,1), FRect(Point2d(x,y),Point2d(x+w,y+3)), FRect(4,-1,3,-2) }; Pts p{ {0,0}, {2,1}, {4,-1}, {3,-2}, {x,y}, {x+w,y+3} };
	if( t==0 ) isBox( getBB(c), p, "vector" ); if( t==1 ) { std::list<FRect> l(c.begin(),c.end()); isBox( getBB(l), p, "list" ); } if( t==2 ) { std::array<FRect,3> a{c[0],c[1],c[2]}; isBox( getBB(a), p, "array" ); }
}
CASE(segments)
{
	int t=choose("type",3), n=1+choose("n",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=sympts(4,1,x,y); p.resize(2*n); std::vector<Segment> s; for( int i=0;i<n;i++ ) s.push_back( Segment(p[2*i],p[2*i+1]) );
	if( t==0 ) isBox( getBB(s), p, "vector" ); if( t==1 ) { std::list<Segment> l(s.begin(),s.end()); isBox( getBB(l), p, "list" ); } { std::vector<OSegment> o; for( int i=0;i<n;i++ ) o.push_back( OSegment(p[2*i],p[2*i+1]) ); isBox( getBB(o), p, "oriented" ); }
	if( t==2 && n==2 ) { std::array<Segment,2> a{s[0],s[1]}; isBox( getBB(a), p, "array" ); }
}
// two flat segments may have a common box
CASE(flat_segments)
{
	int w=choose("w",2); Num c=in("c",-9,9), d=in("d",-9,9); away(c-d,1e-3);
	std::vector<Segment> s{ w? Segment(Point2d(0,c),Point2d(3,c)) : Segment(Point2d(c,0),Point2d(c,3)), w? Segment(Point2d(5,d),Point2d(6,d)) : Segment(Point2d(d,5),Point2d(d,6)) };
	Pts p; for( auto& z:s ) { auto q=z.getPts(); p.push_back(q.first); p.push_back(q.second); } isBox( getBB(s), p, "box" ); isBox( getBB(s[0],s[1]), p, "pair" );
	CPolyline a( Pts{p[0],p[1]} ); OPolyline b( Pts{p[2],p[3]} ); isBox( getBB(a,b), p, "polylines" ); isBox( getBB(b,s[0]), p, "mixed" );
}
CASE(polygons)
{
	int t=choose("type",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=sympts(3,0,x,y), q=moved(shape(2),3,-2); std::vector<CPolyline> v{ CPolyline(p), CPolyline(q) }; std::list<OPolyline> l{ OPolyline(q), OPolyline(p) };
	Pts e(p); e.insert(e.end(),q.begin(),q.end()); if( t ) isBox( getBB(v), e, "closed" ); else isBox( getBB(l), e, "open" );
}
// ---- two objects of any type
struct Obj { int k; Pts box; };
static Num cx(){ return 3; }
template<class A,class B> void pairBox( const A& a, const Pts& pa, const B& b, const Pts& pb )
{
	Pts e(pa); e.insert(e.end(),pb.begin(),pb.end());
	isBox( getBB(a,b), e, "pair", 1e-5 ); isBox( getBB(b,a), e, "swapped", 1e-5 );
}
// second object concrete, of each type
template<class A> void withAll( const A& a, const Pts& pa )
{
	int k=choose("other",8); Pts tri{ {2,1}, {6,2}, {5,-3} };
	if( k==0 ) pairBox( a,pa, Point2d(5,3), Pts{ {5,3} } );
	if( k==1 ) pairBox( a,pa, Segment(Point2d(2,1),Point2d(3,-4)), Pts{ {2,1}, {3,-4} } );
	if( k==2 ) pairBox( a,pa, OSegment(Point2d(2,1),Point2d(1,-4)), Pts{ {2,1}, {1,-4} } );
	if( k==3 ) pairBox( a,pa, Circle(Point2d(1,2),Num(3)), Pts{ {-2,-1}, {4,5} } );
	if( k==4 ) pairBox( a,pa, FRect(1,2,-3,4), Pts{ {1,2}, {-3,4} } );
	if( k==5 ) pairBox( a,pa, CPolyline(tri), tri );
	if( k==6 ) pairBox( a,pa, OPolyline(tri), tri );
	if( k==7 ) pairBox( a,pa, Ellipse(Num(1),Num(1),Num(3),Num(2)), Pts{ {-2,-1}, {4,3} } );
}
static void pt2( Num& x, Num& y ) { x=in("x",-9,9); y=in("y",-9,9); for( double v:{5.,2.,3.,1.,-2.,4.,-3.,6.} ) away(x-v,1e-3); for( double v:{3.,1.,-4.,-1.,5.,2.,4.,-3.} ) away(y-v,1e-3); }
CASE(pair_point) { Num x,y; pt2(x,y); Point2d p(x,y); withAll( p, Pts{p} ); }
CASE(pair_segment) { Num x,y; pt2(x,y); Point2d p(x,y), q(-0.5,0.5); assume( Or( absge(x+0.5,1e-3), absge(y-0.5,1e-3) ) ); withAll( Segment(p,q), Pts{p,q} ); }
CASE(pair_circle) { Num x=in("x",-9,9), y=in("y",-9,9); withAll( Circle(Point2d(x,y),Num(1.25)), Pts{ {x-1.25,y-1.25}, {x+1.25,y+1.25} } ); }
CASE(pair_rectangle) { Num x=in("x",-9,9), y=in("y",-9,9); Point2d p(x,y), q(x+2.25,y+0.75); withAll( FRect(p,q), Pts{p,q} ); }
CASE(pair_closed) { Num x,y; pt2(x,y); Pts p{ {x,y}, {-0.5,0.5}, {1.5,0.25} }; assume( And( absge(x+0.5,1e-3), absge(x-1.5,1e-3), absge(y-0.5,1e-3), absge(y-0.25,1e-3) ) ); withAll( CPolyline(p), p ); }
CASE(pair_open) { Num x,y; pt2(x,y); Pts p{ {x,y}, {-0.5,0.5}, {1.5,0.25} }; assume( And( absge(x+0.5,1e-3), absge(x-1.5,1e-3), absge(y-0.5,1e-3), absge(y-0.25,1e-3) ) ); withAll( OPolyline(p), p ); }
CASE(pair_ellipse) { Num x=in("x",-9,9), y=in("y",-9,9); withAll( Ellipse(x,y,Num(1.5),Num(0.75)), Pts{ {x-1.5,y-0.75}, {x+1.5,y+0.75} } ); }
// one of the two polylines is empty, or flat
template<class P> void emptyCase()
{
	int s=choose("s",2), k=choose("k",5); Num x=in("x",-9,9), y=in("y",-9,9); away(x-3,1e-3); away(y-4,1e-3); Pts p{ {x,y}, {3,4} }; P e; FRect b;
	auto go=[&]( auto z ) { return s? getBB(e,z) : getBB(z,e); };
	if( k==0 ) b=go( CPolyline(p) ); if( k==1 ) b=go( OPolyline(p) ); if( k==2 ) b=go( Segment(p[0],p[1]) ); if( k==3 ) b=go( FRect(p[0],p[1]) ); if( k==4 ) { b=go( Circle(Point2d(x,y),Num(2)) ); p=Pts{ {x-2,y-2}, {x+2,y+2} }; }
	isBox( b, p, "box" );
}
CASE(empty_closed) { emptyCase<CPolyline>(); }
CASE(empty_open) { emptyCase<OPolyline>(); }
CASE(empty_throws)
{
	Num c=in("c",-9,9); CPolyline e; OPolyline o; Point2d p(c,1); Segment s(p,Point2d(c,3)); check( throws([&]{ getBB(e,o); }) && throws([&]{ getBB(o,e); }) && throws([&]{ getBB(e,e); }), "both" );
	check( throws([&]{ getBB(e,p); }) && throws([&]{ getBB(p,o); }) && throws([&]{ getBB(s,e); }) && throws([&]{ getBB(o,s); }), "flat" ); check( throws([&]{ getBB(p,p); }) && throws([&]{ getBB(s,s); }) && throws([&]{ getBB(s,p); }), "same" );
	CPolyline f( Pts{ {c,1}, {c,5}, {c,3} } ); check( throws([&]{ getBB(f,e); }) && throws([&]{ getBB(e,f); }) && throws([&]{ getBB(f,p); }) && throws([&]{ getBB(s,f); }), "flat-polyline" );
}
CASE(flat_polyline_pair)
{
	int k=choose("k",4), w=choose("w",2); Num c=in("c",-9,9), d=in("d",-9,9); away(c-d,1e-3); away(c-2,1e-3); away(d-2,1e-3); Pts p{ {1,c}, {6,c}, {4,c} }, q{ {5,d}, {7,d}, {6.5,d} }; if( w ) for( auto v:{&p,&q} ) for( auto& z:*v ) z=Point2d(z.getY(),z.getX());
	if( k==0 ) pairBox( CPolyline(p),p, OPolyline(q),q ); if( k==1 ) pairBox( OPolyline(p),p, CPolyline(q),q ); if( k==2 ) pairBox( OPolyline(p),p, Point2d(2,2),Pts{ {2,2} } ); if( k==3 ) pairBox( CPolyline(p),p, FRect(0,0,2,2), Pts{ {0,0}, {2,2} } );
}
CASE(minmax)
{
	Num x=in("x",-9,9), y=in("y",-9,9); Pts p=sympts(4,2,x,y); auto m=getMinMax( std::make_pair(p[0],p[1]), std::make_pair(p[2],p[3]) ); isBox( toRect(m), p, "minmax" ); check( And( le(m.first.getX(),m.second.getX()), le(m.first.getY(),m.second.getY()) ), "order" );
	isBox( getBB( std::make_pair(p[0],p[1]), std::make_pair(p[2],p[3]) ), p, "pairs" );
}
CASE(minmax_same)
{
	// one of the pairs holds the same point twice
	int k=choose("k",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=sympts(3,1,x,y); away(p[0].getX()-p[1].getX(),1e-3); away(p[0].getY()-p[1].getY(),1e-3); auto a=std::make_pair(p[0],p[1]), b=std::make_pair(p[2],p[2]); isBox( toRect( k? getMinMax(a,b) : getMinMax(b,a) ), p, "minmax" ); isBox( k? getBB(a,b) : getBB(b,a), p, "pairs" );
}
// boxes of ellipses in containers
CASE(ellipses)
{
	Num x=in("x",-9,9), y=in("y",-9,9); std::vector<Ellipse> v{ Ellipse(x,y,Num(2),Num(1)), Ellipse(Num(1),Num(1),Num(3),Num(2)) }; isBox( getBB(v), Pts{ {x-2,y-1}, {x+2,y+1}, {-2,-1}, {4,3} }, "box", 1e-5 );
}
// more points, other sizes and places
CASE(big)
{
	int k=choose("k",3), w=TH(k+1,choose("place",4)), t=choose("type",5), j=choose("j",3); Num x=in("x",-9,9), y=in("y",-9,9); Pts b=bigShape(k); j=j==2? b.size()-1 : j*4; b[j]=Point2d(x,y); for( size_t i=0;i<b.size();i++ ) if( (int)i!=j ) { away( b[i].getX()-x, 1e-3 ); away( b[i].getY()-y, 1e-3 ); }
	Pts p=placed(b,w); FRect r; if( t==0 ) r=getBB(p); if( t==1 ) { std::list<Point2d> l(p.begin(),p.end()); r=getBB(l); } if( t==2 ) r=CPolyline(p).getBB(); if( t==3 ) r=getBB( OPolyline(p) ); if( t==4 ) { std::vector<Segment> s; for( size_t i=0;i+1<p.size();i++ ) s.push_back( Segment(p[i],p[i+1]) ); r=getBB(s); }
	isBox( r, p, "box", 1e-4 );
}
// many objects
CASE(many)
{
	int t=choose("type",4), j=choose("j",6), w=TH(t&1,choose("place",2)); Num x=in("x",-9,9), y=in("y",-9,9), r=in("r",0.1,3); Pts c{ {0,0}, {5,-3}, {-4,2}, {6,6}, {1,8}, {-7,-5} }, e; c[j]=Point2d(x,y); c=placed(c,w?3:0);
	std::vector<Circle> vc; std::vector<FRect> vr; std::vector<Segment> vs; std::vector<CPolyline> vp; for( size_t i=0;i<6;i++ ) { Num q= (int)i==j? r : Num(1+0.25*i); Point2d a(c[i].getX()-q,c[i].getY()-q), b(c[i].getX()+q,c[i].getY()+q); e.push_back(a); e.push_back(b); vc.push_back( Circle(c[i],q) ); vr.push_back( FRect(a,b) ); vs.push_back( Segment(b,a) ); vp.push_back( CPolyline( Pts{ a, {b.getX(),a.getY()}, b } ) ); }
	isBox( t==0? getBB(vc) : t==1? getBB(vr) : t==2? getBB(vs) : getBB(vp), e, "box", 1e-4 );
}
