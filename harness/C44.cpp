// the free functions: each states what the object gives, or what its description says
#include "geom.hpp"
#include "hlib.hpp"
static Fm ptEq( const Point2d& a, const Point2d& b ) { return nearpt(a,b,1e-6); }
static Fm segEq( const Segment& a, const Point2d& p, const Point2d& q ) { auto s=a.getPts(); return Or( And(ptEq(s.first,p),ptEq(s.second,q)), And(ptEq(s.first,q),ptEq(s.second,p)) ); }
static Fm segEq( const Segment& a, const Segment& b ) { auto s=b.getPts(); return segEq(a,s.first,s.second); }
template<class O> static Fm osegEq( const O& a, const O& b ) { auto s=a.getPts(), t=b.getPts(); return And(ptEq(s.first,t.first),ptEq(s.second,t.second)); }
static Fm lineEq( const Line2d& a, const Line2d& b ) { auto l=a.get(), m=b.get(); return all( { near(l[0],m[0]), near(l[1],m[1]), near(l[2],m[2]) } ); }
static Point2d at( int d, Num t, Num h, Num x, Num y ) { Dir u=dirOf(d); return Point2d( x+t*u.x-h*u.y, y+t*u.y+h*u.x ); }
static bool col( const Pts& p, int k ) { static const int P[][3]={ {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} }; return areCollinear( p[P[k][0]], p[P[k][1]], p[P[k][2]] ); }
CASE(collinear) { int d=choose("d",7), k=choose("perm",6); Num s=in("s",-9,9), t=in("t",-9,9); away(s,0.01); away(t,0.01); away(s-t,0.01); Pts p{ at(d,0,0,1,2), at(d,s,0,1,2), at(d,t,0,1,2) }; check( col(p,k), "collinear" ); }
CASE(not_collinear) { int d=choose("d",7), k=choose("perm",6); Num t=in("t",-9,9), h=in("h",-5,5); away(h,1e-3); Pts p{ at(d,0,0,1,2), at(d,4,0,1,2), at(d,t,h,1,2) }; check( !col(p,k), "not-collinear" ); }
CASE(collinear_same) { int k=choose("perm",6); Num x=in("x",-9,9), y=in("y",-9,9); assume( ge( x*x+y*y, 0.01 ) ); Pts p{ {x,y}, {x,y}, {0,0} }; check( col(p,k), "two-equal" ); Pts q{ {x,y}, {x,y}, {x,y} }; check( col(q,k), "all-equal" ); }
// the distance that counts is the one to the line through the two farthest points, two of the points being close
CASE(collinear_threshold) { int d=choose("d",5), k=choose("perm",6), o=choose("other",2); Num s=in("s",0.001,0.1), h=in("h",-1e-10,1e-10); if( o ) h=h*50; Pts p{ at(d,0,0,0,0), at(d,s,h,0,0), at(d,4,0,0,0) }; if( o ) assume( absge(h,2e-10) ); else assume( absle(h,0.9e-10) ); check( col(p,k)==!o, "collinear" ); }
CASE(parallel) { int d=choose("d",7), e=choose("e",7); Num t=in("t",-9,9), s=in("s",-9,9); Point2d p=at(d,0,0,t,1), q=at(d,3,0,t,1), v=at(e,0,0,2,s), w=at(e,5,0,2,s); Segment a(p,q), b(v,w); Line2d l(p,q), m(v,w); bool par= d==e; check( areParallel(a,b)==par && areParallel(b,a)==par, "segments" ); check( areParallel(l,m)==par && areParallel(m,l)==par, "lines" ); check( areParallel(a,m)==par, "segment-line" ); }
CASE(centers)
{
	Num x=in("x",-99,99), y=in("y",-99,99); int k=choose("k",5); std::vector<Segment> s{ {Point2d(x,y),Point2d(x+4,y+2)}, {Point2d(0,0),Point2d(x,500)}, {Point2d(1,1),Point2d(3,-5)} }; Pts e{ {x+2,y+1}, {x/2,250}, {2,-2} }; std::vector<Point2d> r;
	if( k==0 ) r=getCenters(s); if( k==1 ) r=getCenters( std::list<Segment>(s.begin(),s.end()) ); if( k==2 ) r=getCenters( std::array<Segment,3>{ s[0],s[1],s[2] } ); if( k==3 ) { std::vector<Circle> c; for( auto& p:e ) c.push_back( Circle(p,Num(3)) ); r=getCenters(c); } if( k==4 ) { std::vector<FRect> c; for( auto& p:e ) c.push_back( FRect( Point2d(p.getX()-1,p.getY()-2), Point2d(p.getX()+1,p.getY()+2) ) ); r=getCenters(c); }
	check( r.size()==3, "count" ); if( r.size()==3 ) check( all( { ptEq(r[0],e[0]), ptEq(r[1],e[1]), ptEq(r[2],e[2]) } ), "centers" );
	check( getCenters( std::vector<Segment>() ).empty(), "empty" );
}
CASE(lines_of_set)
{
	Num x=in("x",-99,99); int k=choose("k",3); std::vector<Segment> s{ {Point2d(x,1),Point2d(x+3,5)}, {Point2d(0,x),Point2d(1,x)}, {Point2d(1,1),Point2d(1,-5)} }; std::vector<Line2d> r; if( k==0 ) r=getLines(s); if( k==1 ) r=getLines( std::list<Segment>(s.begin(),s.end()) ); if( k==2 ) r=getLines( std::array<Segment,3>{ s[0],s[1],s[2] } );
	check( r.size()==3, "count" ); if( r.size()!=3 ) return; for( int i=0;i<3;i++ ) { auto p=s[i].getPts(); check( And( near(evalLine(r[i],p.first),0), near(evalLine(r[i],p.second),0) ), "lines" ); }
}
// ---- segments
CASE(segment_functions)
{
	int d=choose("d",5); Num x=in("x",-9,9), L=in("L",0.5,9); Point2d p=at(d,0,0,x,1), q=at(d,L,0,x,1); Segment s(p,q); OSegment o(p,q); auto g=getPts(s); check( segEq(s,g.first,g.second), "pts" ); check( near(length(s),L,1e-5), "length" ); check( near(area(s),0), "area" ); check( size(s)==2, "size" ); check( type(s)==Type::Segment && type(o)==Type::OSegment, "type" );
	check( And( near(evalLine(getLine(s),p),0), near(evalLine(getLine(s),q),0) ), "line" ); check( ptEq( getCenter(s), at(d,L/2,0,x,1) ), "center" );
	auto b=getBisector(s); check( And( near(evalLine(b,at(d,L/2,0,x,1)),0), near(evalLine(b,at(d,L/2,7,x,1)),0) ), "bisector" );
	auto h=split(s); Point2d m=at(d,L/2,0,x,1); check( Or( And( segEq(h.first,p,m), segEq(h.second,m,q) ), And( segEq(h.first,m,q), segEq(h.second,p,m) ) ), "split" );
	auto i=split(o); check( And( osegEq(i.first,OSegment(p,m)), osegEq(i.second,OSegment(m,q)) ), "split-oriented" ); auto j=split(o,Num(0.25)); Point2d n=at(d,0.25,0,x,1); check( And( osegEq(j.first,OSegment(p,n)), osegEq(j.second,OSegment(n,q)) ), "split-distance" );
}
CASE(segment_sets)
{
	int d=choose("d",5); Num x=in("x",-9,9), L=in("L",0.5,9); Point2d p=at(d,0,0,x,1), q=at(d,L,0,x,1); Segment s(p,q); Pts e{ at(d,0,L,x,1), at(d,0,-L,x,1), at(d,L,L,x,1), at(d,L,-L,x,1) };
	auto o=getOrthogPts(s); std::vector<Fm> f; for( auto& w:e ) f.push_back( Or( ptEq(o[0],w), ptEq(o[1],w), ptEq(o[2],w), ptEq(o[3],w) ) ); check( all(f), "orthogonal-points" );
	auto g=getOrthogSegs(s); f.clear(); for( int k=0;k<4;k++ ) f.push_back( any( { segEq(g[0],k<2?p:q,e[k]), segEq(g[1],k<2?p:q,e[k]), segEq(g[2],k<2?p:q,e[k]), segEq(g[3],k<2?p:q,e[k]) } ) ); check( all(f), "orthogonal-segments" );
	auto r=getParallelSegs(s,Num(2)); auto P=[&]( int z ) { return std::make_pair( at(d,0,2*z,x,1), at(d,L,2*z,x,1) ); }; auto a=P(1), b=P(-1); check( Or( And( segEq(r.first,a.first,a.second), segEq(r.second,b.first,b.second) ), And( segEq(r.second,a.first,a.second), segEq(r.first,b.first,b.second) ) ), "parallel-segments" );
	check( segEq( getExtended(s), at(d,-L,0,x,1), at(d,2*L,0,x,1) ), "extended" );
}
CASE(between_centers) { Num x=in("x",5,99), y=in("y",-9,9); Circle a(Point2d(1,2),Num(3)), b(Point2d(x,y),Num(1)); check( segEq( getSegment(a,b), Point2d(1,2), Point2d(x,y) ), "segment" ); auto l=getLine(a,b); check( And( near(evalLine(l,Point2d(1,2)),0), near(evalLine(l,Point2d(x,y)),0) ), "line" ); Ellipse e(x,y,Num(4),Num(2)); check( segEq( getSegment(a,e), Point2d(1,2), Point2d(x,y) ), "ellipse" ); }
CASE(parallel_distance) { int d=choose("d",7), o=choose("opposite",2); Num h=in("h",-9,9), x=in("x",-9,9); clearly(h,1e-3); Line2d l( at(d,0,0,x,1), at(d,2,0,x,1) ), m( at(d,o?5:1,h,x,1), at(d,o?1:5,h,x,1) ); Num n=sq(dirOf(d).x)+sq(dirOf(d).y); Num g=getParallelDistance(l,m); check( And( ge(g,0), near( g*g, h*h*n, 1e-4 ) ), "distance" ); int e=choose("e",7); if( e!=d ) check( throws( [&]{ getParallelDistance( l, Line2d( at(e,0,0,1,2), at(e,2,0,1,2) ) ); } ), "rejected" ); }
// lines whose directions differ by less than the threshold, whichever the signs of their components
CASE(parallel_almost)
{
	int d=choose("d",7), o=choose("opposite",2); Num e=in("e",-4e-4,4e-4), h=in("h",1,9); if( choose("side",2) ) h=-h; Dir u=dirOf(d);
	auto li=[&]( Num g, Num t, bool rev ) { Point2d a=at(d,-1,g-t,3,7), b=at(d,1,g+t,3,7); return rev ? Line2d(b,a) : Line2d(a,b); };
	Line2d l=li(0,e,false), m=li(h,-e,o); Num n=sq(u.x)+sq(u.y), g=getParallelDistance(l,m), q=g*g-h*h*n; check( And( ge(g,0), And( le(q,0.2*n), ge(q,-0.2*n) ) ), "distance" );
}
// ---- rectangles, circles, ellipses, polylines
CASE(rect_functions)
{
	Num x=in("x",-9,9), w=in("w",0.1,9), h=in("h",0.1,9); FRect r(x,Num(1),x+w,1+h); check( And( near(width(r),w), near(height(r),h) ), "size" ); check( And( near(area(r),w*h), near(length(r),2*(w+h)) ), "measures" ); check( size(r)==4 && type(r)==Type::FRect, "type" );
	Pts c{ {x,1}, {x,1+h}, {x+w,1+h}, {x+w,1} }; auto p=getPts(r); check( And( ptEq(p.first,c[0]), ptEq(p.second,c[2]) ), "pts" ); auto q=get4Pts(r); std::vector<Fm> f; for( int i=0;i<4;i++ ) f.push_back( ptEq(q[i],c[i]) ); check( all(f), "four" );
	auto s=getSegs(r); f.clear(); for( int i=0;i<4;i++ ) f.push_back( any( { segEq(s[0],c[i],c[(i+1)%4]), segEq(s[1],c[i],c[(i+1)%4]), segEq(s[2],c[i],c[(i+1)%4]), segEq(s[3],c[i],c[(i+1)%4]) } ) ); check( all(f), "sides" );
	auto d=getDiagonals(r); check( Or( And( segEq(d.first,c[0],c[2]), segEq(d.second,c[1],c[3]) ), And( segEq(d.first,c[1],c[3]), segEq(d.second,c[0],c[2]) ) ), "diagonals" );
	auto e=getExtended(r).getPts(); check( And( ptEq(e.first,Point2d(x-w,1-h)), ptEq(e.second,Point2d(x+2*w,1+2*h)) ), "extended" ); check( ptEq( getCenter(r), Point2d(x+w/2,1+h/2) ), "center" ); auto b=getBoundingCircle(r); check( And( ptEq(b.center(),Point2d(x+w/2,1+h/2)), near( 4*sq(b.radius()), w*w+h*h, 1e-5 ) ), "bounding-circle" );
	if( branch( gt(w-h,1e-3) ) ) check( near( getInscribedCircle(r).radius(), h/2 ), "inscribed" ); else if( branch( lt(w-h,-1e-3) ) ) check( near( getInscribedCircle(r).radius(), w/2 ), "inscribed" );
}
CASE(circle_functions)
{
	Num x=in("x",-9,9), r=in("r",0.1,9); Circle c(Point2d(x,2),r); const Circle& k=c; check( And( near(radius(c),r), near(radius(k),r) ), "radius" ); check( And( ptEq(center(c),Point2d(x,2)), ptEq(center(k),Point2d(x,2)), ptEq(getCenter(c),Point2d(x,2)) ), "center" ); check( And( near(length(c),2*M_PI*r,1e-5), near(area(c),M_PI*r*r,1e-4) ), "measures" ); check( size(c)==1 && type(c)==Type::Circle, "type" );
	radius(c)=r+1; center(c)=Point2d(5,x); check( And( near(c.radius(),r+1), ptEq(c.center(),Point2d(5,x)) ), "write" );
}
CASE(ellipse_functions)
{
	static const double A[]={0,30,90,135}; int k=choose("k",4); Num x=in("x",-9,9); Ellipse e(x,Num(2),Num(6),Num(3),Num(A[k]*M_PI/180)); check( And( near(angle(e),e.angle()), near(area(e),e.area()), near(length(e),e.length()) ), "measures" ); check( ptEq(getCenter(e),Point2d(x,2)), "center" ); check( type(e)==Type::Ellipse && size(e)==1, "type" );
	auto l=getAxisLines(e), m=e.getAxisLines(); check( And( lineEq(l.first,m.first), lineEq(l.second,m.second) ), "axes" ); auto o=getOBB(e).getPts(), q=e.getOBB().getPts(); check( o.size()==4 && q.size()==4, "box-size" ); if( o.size()==4 && q.size()==4 ) check( all( { ptEq(o[0],q[0]), ptEq(o[1],q[1]), ptEq(o[2],q[2]), ptEq(o[3],q[3]) } ), "box" );
	check( !isCircle(e), "not-circle" ); check( isCircle( Ellipse( x,Num(2),Num(3),Num(3) ) ), "circle" ); check( isCircle( Ellipse( x,Num(2),Num(3.01),Num(3) ), Num(0.1) ), "threshold" );
}
// default threshold: axes (almost) equal
CASE(circle_default) { int k=choose("k",3); Num d=in("d",-1,1); away(d,1e-6); static const double A[]={0,30,90}; Ellipse e( Num(1),Num(2),Num(3),3+d,Num(A[k]*M_PI/180) ); check( !isCircle(e), "free" ); check( !e.isCircle(), "member" ); }
CASE(polyline_functions)
{
	int k=choose("k",5); Num x=in("x",-9,9); Pts p=moved(shape(k),x,2); CPolyline c(p); OPolyline o(p); size_t n=p.size(); check( nbSegs(c)==n && nbSegs(o)==n-1 && size(c)==(double)n && size(o)==(double)n, "count" ); check( type(c)==Type::CPolyline && type(o)==Type::OPolyline, "type" );
	Num per=0, open=0, a=0, cx=0, cy=0; for( size_t i=0;i<n;i++ ) { auto& u=p[i]; auto& v=p[(i+1)%n]; Num l=std::hypot( v.getX()-u.getX(), v.getY()-u.getY() ); per+=l; if( i+1<n ) open+=l; Num t=u.getX()*v.getY()-u.getY()*v.getX(); a+=t; cx+=(u.getX()+v.getX())*t; cy+=(u.getY()+v.getY())*t; }
	check( And( near(length(c),per,1e-4), near(length(o),open,1e-4) ), "length" ); check( Or( near(area(c),a/2,1e-4), near(area(c),-a/2,1e-4) ), "area" ); check( ge(area(c),0), "area-positive" ); check( near(area(o),0), "area-open" ); check( nearpt( centroid(c), cx/(3*a), cy/(3*a), 1e-4 ), "centroid" );
	check( isSimple(c) && !isSimple(o) && isConvex(c)==( k==0 || k==4 ) && !isConvex(o), "predicates" ); auto s=getSegs(c); check( s.size()==n && getSegs(o).size()==n-1, "sides-count" ); if( s.size()==n ) { std::vector<Fm> f; for( size_t i=0;i<n;i++ ) f.push_back( segEq(s[i],p[i],p[(i+1)%n]) ); check( all(f), "sides" ); }
	check( And( ptEq(getLmPoint(c),c.getLmPoint()), ptEq(getRmPoint(c),c.getRmPoint()), ptEq(getTmPoint(c),c.getTmPoint()), ptEq(getBmPoint(c),c.getBmPoint()) ), "extremal" );
}
CASE(point_functions) { Num x=in("x",-9,9), y=in("y",-9,9); Point2d p(x,y), q(3,-2); check( And( near(getX(p),x), near(getY(p),y) ), "coordinates" ); Num d=dist(p,q), e=dist(q,p); check( all( { near(d,e), ge(d,0), near(d*d,d2(p,q),1e-5) } ), "dist" ); check( type(p)==Type::Point2d && size(p)==1 && type(Line2d())==Type::Line2d, "type" ); check( near(area(p),0), "area" ); check( near(length(p),0), "length" ); }
CASE(side_of_line) { int d=choose("d",7); Num t=in("t",-9,9), h=in("h",-9,9); clearly(h,1e-3); Line2d l( at(d,0,0,1,2), at(d,3,0,1,2) ); auto a=l.get(); Point2d p=at(d,t,h,1,2), r=at(d,t,5,1,2); bool up=branch( gt(evalLine(l,r),0) ); int s=side(p,l); if( branch( eq(h,0) ) ) check( s==0, "on" ); else check( s==( branch( gt(h,0) )==up ? 1:-1 ), "side" ); (void)a; }
CASE(side_near) { int d=choose("d",7), k=choose("place",4); Place P=placeOf(k); Num t=in("t",-9,9), h=in("h",-0.01,0.01); away(h,1e-6); Point2d u=at(d,0,0,1,2), v=at(d,3,0,1,2), p=at(d,t,h,1,2), r=at(d,t,5,1,2); auto z=[&]( const Point2d& q ) { return inPlace(P,q.getX(),q.getY()); }; Line2d l(z(u),z(v)); check( side(z(p),l)==side(z(r),l)*( branch(gt(h,0))? 1:-1 ), "side" ); check( side(z(r),l)!=0, "not-null" ); }
// ---- moves
template<class O> static Pts ptsOf( const O& o ) { auto p=o.getPts(); return Pts( p.begin(), p.end() ); }
template<class O> static Pts pair2( const O& o ) { auto p=o.getPts(); return { p.first, p.second }; }
static Pts obj( int k, int op, Num a, Num b )
{
	auto ap=[&]( auto& o ) { if( op==0 ) translate(o,a,b); else if( op==1 ) translate( o, std::make_pair(a,b) ); else if( op==2 ) moveTo( o, Point2d(a,b) ); else if constexpr( !std::is_same<std::decay_t<decltype(o)>,Point2d>::value ) moveTo( o,a,b ); else moveTo( o, Point2d(a,b) ); };
	if( k==0 ) { Segment s(1,2,4,7); ap(s); return pair2(s); } if( k==1 ) { FRect s(1,2,4,7); ap(s); return pair2(s); } if( k==2 ) { CPolyline s( Pts{ {1,2},{4,7},{2,9} } ); ap(s); return ptsOf(s); } if( k==3 ) { Circle s(Point2d(1,2),Num(3)); ap(s); return { s.center() }; } if( k==4 ) { Point2d s(1,2); ap(s); return {s}; } OSegment s(4,7,1,2); ap(s); return pair2(s);
}
CASE(moves)
{
	int k=choose("k",6), op=choose("op",4), far=choose("far",2); Num a=in("a",-9,9)*(far?1000:1), b=in("b",-9,9); Pts o= k==2? Pts{ {1,2},{4,7},{2,9} } : k==3||k==4? Pts{ {1,2} } : k==5? Pts{ {4,7},{1,2} } : Pts{ {1,2},{4,7} }; auto r=obj(k,op,a,b); check( r.size()==o.size(), "size" ); if( r.size()!=o.size() ) return; Num dx=a, dy=b; if( op>1 ) { dx=a-o[0].getX(); dy=b-o[0].getY(); }
	std::vector<Fm> f; for( size_t i=0;i<o.size();i++ ) f.push_back( nearpt( r[i], o[i].getX()+dx, o[i].getY()+dy ) ); check( all(f), "moved" );
}
CASE(rotations)
{
	static const Rotate R[]={ Rotate::CCW, Rotate::CW, Rotate::Full, Rotate::VMirror, Rotate::HMirror }; int r=choose("r",5), ref=choose("ref",2); Num x=in("x",-9,9), y=in("y",-9,9), cx=ref?Num(3):Num(0), cy=ref?Num(-1):Num(0); Pts p{ {x,2},{x+3,y+7},{x+1,y+30} }; auto im=[&]( const Point2d& q ) { Num a=q.getX()-cx, b=q.getY()-cy; Num u,v; if( r==0 ) { u=-b; v=a; } else if( r==1 ) { u=b; v=-a; } else if( r==2 ) { u=-a; v=-b; } else if( r==3 ) { u=-a; v=b; } else { u=a; v=-b; } return Point2d(u+cx,v+cy); };
	std::vector<Fm> f; CPolyline c(p); if( ref ) rotate(c,R[r],Point2d(cx,cy)); else rotate(c,R[r]); for( int i=0;i<3;i++ ) f.push_back( nearpt( c.getPts()[i], im(p[i]) ) ); FRect q(x,2,x+3,y+20); if( ref ) rotate(q,R[r],Point2d(cx,cy)); else rotate(q,R[r]); Point2d u=im(Point2d(x,2)), v=im(Point2d(x+3,y+20)); auto g=q.getPts(); f.push_back( And( Or( And( near(g.first.getX(),u.getX()), near(g.second.getX(),v.getX()) ), And( near(g.first.getX(),v.getX()), near(g.second.getX(),u.getX()) ) ), Or( And( near(g.first.getY(),u.getY()), near(g.second.getY(),v.getY()) ), And( near(g.first.getY(),v.getY()), near(g.second.getY(),u.getY()) ) ) ) );
	check( all(f), "rotated" );
}
CASE(apply_to_set) { Num t=in("t",-9,9); Homogr h; h.addTranslation(t,Num(2)); h.addScale(Num(2)); int k=choose("k",3); Pts p{ {1,2},{t,3},{4,-5} }; std::vector<Fm> f; auto go=[&]( const auto& r ) { check( r.size()==3, "count" ); int i=0; for( auto& q:r ) { if( i<3 ) f.push_back( nearpt( q, 2*(p[i].getX()+t), 2*(p[i].getY()+2) ) ); i++; } }; if( k==0 ) go( h*p ); else if( k==1 ) go( h*std::list<Point2d>(p.begin(),p.end()) ); else go( h*std::array<Point2d,3>{ p[0],p[1],p[2] } ); check( all(f), "images" ); }
CASE(defaults)
{
	Num t=in("t",-9,9); auto mv=[&]( const Point2d& p ) { Homogr h; Point2d q=h*p; return nearpt(q,p); };
	check( all({ nearpt(Point2d(),0,0), near(evalLine(Line2d(),Num(0),t),0) }), "point-line" );
	check( And( nearpt(Segment().getPts().first,0,0), nearpt(Segment().getPts().second,1,1) ), "segment" ); check( And( nearpt(OSegment().getPts().first,0,0), nearpt(OSegment().getPts().second,1,1) ), "osegment" );
	check( And( nearpt(FRect().getPts().first,0,0), nearpt(FRect().getPts().second,1,1) ), "frect" ); check( And( nearpt(Circle().center(),0,0), near(Circle().radius(),1) ), "circle" );
	Ellipse e; check( all({ nearpt(e.getCenter(),0,0), near(e.getMajMin().first,2), near(e.getMajMin().second,1) }), "ellipse" ); auto a=e.getAxisLines(); check( And( near(evalLine(a.first,t,Num(0)),0), near(evalLine(a.second,Num(0),t),0) ), "ellipse-axes" );
	check( CPolyline().size()==0 && OPolyline().size()==0, "polylines" ); check( mv(Point2d(t,3)), "homography" );
}
