// objects over two different number types
#include "geom.hpp"
#include "hlib.hpp"
using PL_=Point2d_<NumL>; using LL_=Line2d_<NumL>; using SL_=Segment_<NumL>; using OL_=OSegment_<NumL>; using CL_=Circle_<NumL>; using RL_=FRect_<NumL>; using EL_=Ellipse_<NumL>; using HL_=Homogr_<NumL>; using CPL_=CPolyline_<NumL>; using OPL_=OPolyline_<NumL>;
template<class A,class B> static Fm pe( const A& a, const B& b, double tol=1e-6 ) { return And( near(Num(a.getX()),Num(b.getX()),tol), near(Num(a.getY()),Num(b.getY()),tol) ); }
template<class A,class B> static Fm le3( const A& a, const B& b ) { auto l=a.get(); auto m=b.get(); return all( { near(Num(l[0]),Num(m[0])), near(Num(l[1]),Num(m[1])), near(Num(l[2]),Num(m[2])) } ); }
template<class A,class B> static Fm s2( const A& a, const B& b ) { auto p=a.getPts(); auto q=b.getPts(); return And( pe(p.first,q.first), pe(p.second,q.second) ); }
template<class A,class B> static Fm pl( const A& a, const B& b ) { const auto& p=a.getPts(); const auto& q=b.getPts(); if( p.size()!=q.size() ) return T(false); std::vector<Fm> f; for( size_t i=0;i<p.size();i++ ) f.push_back( pe(p[i],q[i]) ); return all(f); }
template<class B,class A> static void conv( const A& a, const std::string& w, std::function<Fm(const A&,const B&)> same )
{
	B b(a), c; c=b; A d(b); const A& a2=a; B e=B(a2); check( same(a,b), w+"-to" ); check( same(a,c), w+"-assigned" ); check( same(d,b), w+"-back" ); check( same(a,e), w+"-again" );
}
CASE(points) { int k=choose("w",3); static const double W[]={1,-2,0.5}; Num x=in("x",-9,9), y=in("y",-9,9); Point2d p(x*W[k],y*W[k],Num(W[k])); conv<PL_,Point2d>( p,"point",[]( const Point2d& a, const PL_& b ) { return pe(a,b); } ); PL_ q(p); check( p==q && q==p && !(p!=q), "equal" ); PL_ r( p.getX()+1, p.getY() ); check( p!=r && r!=p && !(p==r), "not-equal" ); check( p<r && !(r<p), "less" ); check( And( near( p.distTo(r),1 ), near( r.distTo(p),1 ), near( dist(p,r),1 ) ), "dist" ); Point2d u; u=r; check( pe(u,r), "assign" ); }
CASE(lines) { int d=choose("d",7); Num x=in("x",-9,9); Dir u=dirOf(d); Line2d l( x,Num(1),x+u.x,1+Num(u.y) ); conv<LL_,Line2d>( l,"line",[]( const Line2d& a, const LL_& b ) { return le3(a,b); } ); LL_ m(l); check( l==m && m==l, "equal" ); check( l.isParallelTo(m) && m.isParallelTo(l), "parallel" ); check( near( l.getAngle(m),0,1e-3 ), "angle" ); }
CASE(line_of_points) { Num x=in("x",5,9), y=in("y",-9,9); Point2d p(1,2); PL_ q(x,y); auto n=p*q; check( And( near(evalLine(Line2d(n),p),0), near(evalLine(Line2d(n),x,y),0) ), "product" ); Line2d l( (PL_(x,y)) ); check( And( near(evalLine(l,x,y),0), near(evalLine(l,Point2d(0,0)),0) ), "through-origin" ); }
CASE(meet) { int d=choose("d",7), e=choose("e",7); if( d==e ) skip("same"); Num x=in("x",-9,9); Dir u=dirOf(d), v=dirOf(e); Line2d l( x,Num(1),x+u.x,1+Num(u.y) ); LL_ m( NumL(2),NumL(x),NumL(2+v.x),NumL(x+v.y) ); Line2d n( Num(2),x,2+Num(v.x),x+v.y ); Point2d p=l*m, q=l*n; PL_ r=m*l; check( And( pe(p,q), pe(r,q) ), "product" ); auto i=l.intersects(m); check( i(), "intersects" ); if( i() ) check( pe( i.get(), q ), "point" ); }
CASE(line_functions) { int d=choose("d",7); Num x=in("x",-9,9), y=in("y",-9,9); Dir u=dirOf(d); Line2d l( x,Num(1),x+u.x,1+Num(u.y) ); PL_ q(3,y); Point2d p(3,y); check( And( near( l.distTo(q), l.distTo(p) ), near( q.distTo(l), l.distTo(p) ) ), "dist" ); check( And( le3( l.getOrthogLine(Point2d(x,1)), l.getOrthogLine(PL_(x,1)) ), le3( l.getParallelLine(p), l.getParallelLine(q) ) ), "derived" ); check( side(q,l)==side(p,l), "side" ); auto a=l.getPoints(Point2d(x,1),Num(2)); auto b=l.getPoints(PL_(x,1),NumL(2)); check( And( pe(a.first,b.first), pe(a.second,b.second) ), "points" ); check( le3( l.getRotatedLine(Point2d(x,1),Num(M_PI/2)), l.getRotatedLine(PL_(x,1),NumL(M_PI/2)) ), "rotated" ); }
CASE(segments)
{
	int d=choose("d",5); Num x=in("x",-9,9), y=in("y",-9,9); Dir u=dirOf(d); Segment s( x,Num(1),x+4*u.x,1+4*Num(u.y) ); OSegment o( x+4*u.x,1+4*Num(u.y),x,Num(1) ); conv<SL_,Segment>( s,"segment",[]( const Segment& a, const SL_& b ) { return s2(a,b); } ); conv<OL_,OSegment>( o,"oriented",[]( const OSegment& a, const OL_& b ) { return s2(a,b); } ); SL_ t(s); OL_ p(o);
	check( near( t.length(),4 ), "length" ); PL_ q(3,y); check( near( s.distTo(q), s.distTo(Point2d(3,y)) ), "dist" ); check( o.getPointSide(q)==o.getPointSide(Point2d(3,y)), "side" ); Segment r( PL_(x,1), PL_(3,40) ); check( s2( r, Segment( Point2d(x,1), Point2d(3,40) ) ), "ctor" );
}
CASE(segments_meet) { Num y=in("y",-9,9); SL_ a( PL_(-4,y), PL_(5,y+1) ); Segment a2( Point2d(-4,y), Point2d(5,y+1) ), b( Point2d(0,-5), Point2d(0,5) ); Line2d l( Point2d(0,-5), Point2d(0,5) ); LL_ m(l); away( y+4.0/9-5, 0.01 ); away( y+4.0/9+5, 0.01 ); auto i=a2.intersects(b), j=Segment(b).intersects(a2); auto k=b.intersects(a); check( i()==k() && i()==j(), "same" ); if( i() && k() ) check( And( pe(i.get(),k.get()), pe(i.get(),Point2d(0,y+4.0/9)) ), "point" ); auto p=a2.intersects(m); auto q=m.intersects(a2); check( p()==q() && p(), "line" ); if( q() ) check( pe(p.get(),q.get()), "line-point-swapped" ); if( p() ) check( pe(p.get(),Point2d(0,y+4.0/9)), "line-point" ); }
CASE(circles)
{
	Num x=in("x",-9,9), r=in("r",0.5,9); Circle c(Point2d(x,2),r); conv<CL_,Circle>( c,"circle",[]( const Circle& a, const CL_& b ) { return And( pe(a.center(),b.center()), near(Num(a.radius()),Num(b.radius())) ); } ); CL_ d(c); check( c==d && d==c, "equal" ); d.radius()=NumL(r+1); check( c!=d && d!=c, "not-equal" ); check( c.isInside(d) && !d.isInside(c), "inside" );
	Circle e( PL_(x,2), r ); check( pe(e.center(),c.center()), "ctor" ); Circle f; f.set( PL_(x,2), NumL(r) ); check( And( pe(f.center(),c.center()), near(f.radius(),r) ), "set" ); Circle g( (PL_(x,2)) ); check( And( pe(g.center(),c.center()), near(g.radius(),1) ), "center-only" );
}
CASE(circle_in) { Num x=in("x",-9,9), y=in("y",-9,9); Circle c(Point2d(0,0),Num(4)); CL_ d(c); PL_ q(x,y); Point2d p(x,y); Num g=x*x+y*y-16; away(g,0.01); bool i=branch( lt(g,0) ); check( q.isInside(c)==i && p.isInside(d)==i && q.isInside(d)==i, "point" ); FRect r(-5,-5,x+20,5); RL_ s(r); check( c.isInside(r) && c.isInside(s) && d.isInside(r), "rect" ); check( RL_(NumL(-1),NumL(-1),NumL(1),NumL(2)).isInside(c) && FRect(-1,-1,1,2).isInside(d), "rect-in" ); }
CASE(circle_meets) { Num y=in("y",-9,9); Circle c(Point2d(0,0),Num(4)); CL_ k(c); Line2d l(Point2d(0,y),Point2d(1,y)); LL_ m(l); away(y-4,0.01); away(y+4,0.01); auto a=c.intersects(l); auto b=k.intersects(l); auto e=c.intersects(m); bool in=branch( And( lt(y,4), gt(y,-4) ) ); check( a()==in && b()==in && e()==in, "same" ); if( in ) { check( And( pe(a.get().first,b.get().first), pe(a.get().second,b.get().second), pe(a.get().first,e.get().first), pe(a.get().second,e.get().second) ), "points" ); } }
CASE(circles_meet) { Num x=in("x",0.5,20); CL_ a(PL_(x,0),NumL(3)); Circle b(Point2d(0,0),Num(2)), c(Point2d(x,0),Num(3)); away(x-5,0.01); away(x-1,0.01); auto i=b.intersects(a); auto j=b.intersects(c); bool e=branch( And( gt(x,1), lt(x,5) ) ); check( i()==e && j()==e, "same" ); if( e && i() && j() ) { auto p=i.get(); auto q=j.get(); check( And( pe(p[0],q[0],1e-5), pe(p[1],q[1],1e-5) ), "points" ); } }
CASE(rects)
{
	Num x=in("x",-9,9), w=in("w",0.5,9); FRect r(x,Num(1),x+w,Num(7)); conv<RL_,FRect>( r,"rect",[]( const FRect& a, const RL_& b ) { return s2(a,b); } ); RL_ q(r); check( r==q && q==r && !(r!=q), "equal" ); FRect a( PL_(x,1), PL_(x+w,7) ); check( s2(a,r), "ctor" ); FRect b( PL_(x+w/2,4), Num(w), Num(6) ); check( s2(b,r), "center-ctor" ); FRect c; c.set( PL_(x,1), PL_(x+w,7) ); check( s2(c,r), "set" ); PL_ p(x+w/2,3); check( p.isInside(r), "point" ); FRect d(r); RL_ e(r); d.rotate( Rotate::CCW, PL_(1,2) ); r.rotate( Rotate::CCW, Point2d(1,2) ); check( s2(d,r), "rotate" );
}
CASE(rect_sets) { Num x=in("x",-9,9); FRect r(0,0,4,3); RL_ s( NumL(x),NumL(1),NumL(x+3),NumL(5) ); FRect t( x,Num(1),x+3,Num(5) ); away(x-4,0.01); away(x+3,0.01); away(x,0.01); away(x-1,0.01); auto i=r.intersects(s), j=r.intersects(t); check( i.size()==j.size(), "outline" ); }
CASE(ellipses)
{
	static const double A[]={0,30,90,-20}; int k=choose("k",4); Num x=in("x",-9,9); Num a=5; Ellipse e(x,Num(2),a,Num(3),Num(A[k]*M_PI/180)); auto same=[]( const auto& p, const auto& q ) { auto m=p.getMajMin(); auto n=q.getMajMin(); auto l=p.getAxisLines(); auto o=q.getAxisLines(); return all( { pe(p.getCenter(),q.getCenter(),1e-5), near(Num(m.first),Num(n.first),1e-5), near(Num(m.second),Num(n.second),1e-5), le3(l.first,o.first), le3(l.second,o.second) } ); };
	conv<EL_,Ellipse>( e,"ellipse",[=]( const Ellipse& p, const EL_& q ) { return same(p,q); } ); EL_ f( Circle(Point2d(x,2),a) ); check( And( pe(f.getCenter(),Point2d(x,2),1e-5), near(Num(f.getMajMin().first),a,1e-5) ), "from-circle" ); EL_ g(e); PL_ in_(x,2), out(x+20,2); check( in_.isInside(e) && Point2d(x,2).isInside(g) && !out.isInside(e) && !Point2d(x+20,2).isInside(g), "inside" );
}
CASE(homographies)
{
	int b=choose("base",6); Num v=in("v",-3,3), x=in("x",-2,2); M3 m=baseMat(b); m[0][2]=m[0][2]+v*m[2][2]; Homogr h; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) h.set(i,j,m[i][j]); HL_ g; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) g.set(i,j,NumL(m[i][j])); Point2d p(x,1); PL_ q(x,1);
	auto s=h*q; check( isImage(Point2d(s),m,x,Num(1)), "mixed" ); auto t=g*p; check( isImage(Point2d(t),m,x,Num(1)), "mixed-2" );
}
CASE(homography_objects)
{
	int d=choose("d",4); Num v=in("v",-3,3); Homogr h; h.addTranslation(v,Num(1)); h.addScale(Num(2)); HL_ g; g.addTranslation(NumL(v),NumL(1)); g.addScale(NumL(2)); auto P=[&]( double x, double y ) { return Point2d( 2*(x+v), 2*(y+1) ); };
	if( d==0 ) { Segment s(1,2,4,7); SL_ t(s); check( And( s2( g*s, Segment(P(1,2),P(4,7)) ), s2( h*t, Segment(P(1,2),P(4,7)) ) ), "segment" ); }
	if( d==1 ) { CPolyline s( Pts{ {1,2},{4,7},{2,9} } ); CPL_ t(s); CPolyline e( Pts{ P(1,2),P(4,7),P(2,9) } ); check( And( pl(g*s,e), pl(h*t,e) ), "polyline" ); }
	if( d==2 ) { FRect s(1,2,4,7); RL_ t(s); CPolyline a(g*s), b(h*t), c(h*s); check( And( pl(a,c), pl(b,c) ), "rect" ); }
	if( d==3 ) { Circle s(Point2d(1,2),Num(3)); CL_ t(s); auto a=g*s; auto b=h*t; check( And( pe(a.getCenter(),P(1,2),1e-5), pe(b.getCenter(),P(1,2),1e-5) ), "circle" ); check( And( near(Num(a.getMajMin().first),6,1e-5), near(Num(b.getMajMin().first),6,1e-5) ), "radius" ); Line2d l(1,2,4,7); LL_ m(l); auto r=h*m; check( And( near(evalLine(Line2d(r),P(1,2)),0), near(evalLine(Line2d(r),P(4,7)),0) ), "line" ); }
}
CASE(polylines)
{
	int k=choose("k",5); Num x=in("x",-9,9); Pts p=moved(shape(k),x,2); CPolyline c(p); OPolyline o(p); conv<CPL_,CPolyline>( c,"closed",[]( const CPolyline& a, const CPL_& b ) { return pl(a,b); } ); conv<OPL_,OPolyline>( o,"open",[]( const OPolyline& a, const OPL_& b ) { return pl(a,b); } ); CPL_ d(c), e(o); check( pl(e,c), "closed-open" ); check( c==d && d==c, "equal" ); OPL_ g(o); check( o==g && g==o, "open-equal" );
	RL_ r( NumL(x),NumL(1),NumL(x+3),NumL(5) ); CPolyline q(r); check( pl( q, CPolyline( FRect(x,Num(1),x+3,Num(5)) ) ), "rect" ); OPolyline s( (SL_(PL_(x,1),PL_(x+3,5))) ); check( s.size()==2 && true, "segment" ); if( s.size()==2 ) check( And( pe(s.getPts()[0],Point2d(x,1)), pe(s.getPts()[1],Point2d(x+3,5)) ), "segment-points" ); CPolyline z1(p), w(p); z1.rotate( Rotate::CW, PL_(1,2) ); w.rotate( Rotate::CW, Point2d(1,2) ); check( pl(z1,w), "rotate" );
	std::vector<PL_> v; for( auto& z:p ) v.push_back( PL_(z) ); CPolyline u(v); check( pl( u, CPolyline(p) ), "points" ); CPolyline y; y.set(v); check( pl( y, CPolyline(p) ), "set" );
}
CASE(polyline_in) { int k=choose("k",2)*2; Num y=in("y",-3,5); Num x=Num(0.75); Pts p=shape(k); CPolyline c(p); CPL_ d(c); PL_ q(x,y); Point2d r(x,y); bool i=r.isInside(c); check( q.isInside(c)==i && r.isInside(d)==i && q.isInside(d)==i, "point" ); }
CASE(polyline_meets) { int k=choose("k",4); Num y=in("y",-3,5); CPolyline c(shape(k)); CPL_ d(c); Line2d l(Point2d(0,y),Point2d(1,y)); LL_ m(l); for( auto& p:shape(k) ) away( y-p.getY(), 0.01 ); auto a=c.intersects(l), b=c.intersects(m); auto e=l.intersects(d); check( a.size()==b.size() && a.size()==e.size(), "count" ); auto u=a.get(); auto v=b.get(); auto w=e.get(); std::vector<Fm> f; if( u.size()==v.size() && u.size()==w.size() ) for( size_t i=0;i<u.size();i++ ) f.push_back( And( pe(u[i],v[i]), pe(u[i],w[i]) ) ); check( all(f), "points" ); }
CASE(boxes) { Num x=in("x",10,20); SL_ s(PL_(1,2),PL_(4,7)); Circle c(Point2d(x,3),Num(2)); auto a=getBB(s,c); auto p=a.getPts(); check( And( pe(p.first,Point2d(1,1)), pe(p.second,Point2d(x+2,7)) ), "pair" ); auto b=getBB(c,s).getPts(); check( And( pe(b.first,Point2d(1,1)), pe(b.second,Point2d(x+2,7)) ), "pair-swapped" ); }
