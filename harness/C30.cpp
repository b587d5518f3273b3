#include "geom.hpp"
static const Rotate RT[5]={Rotate::CCW,Rotate::CW,Rotate::Full,Rotate::VMirror,Rotate::HMirror};
static Point2d mapPt( int k, const Point2d& p )
{
	Num x=p.getX(), y=p.getY();
	if( k==0 ) return Point2d(-y,x); if( k==1 ) return Point2d(y,-x); if( k==2 ) return Point2d(-x,-y); if( k==3 ) return Point2d(-x,y); return Point2d(x,-y);
}
static Point2d around( int k, const Point2d& p, Num u, Num v )
{ Point2d q=mapPt( k, Point2d(p.getX()-u,p.getY()-v) ); return Point2d( q.getX()+u, q.getY()+v ); }
template<class P> void seqIs( const P& pl, const Pts& e, const std::string& w, double tol=1e-6 )
{
	const auto& v=pl.getPts(); check( v.size()==e.size(), w+"-count" ); if( v.size()!=e.size() ) return;
	std::vector<Fm> f; for( size_t i=0;i<v.size();i++ ) f.push_back( nearpt(v[i],e[i],tol) ); check( all(f), w+"-points" );
}
static Num shoelace( const Pts& p ) { Num s=0; for( size_t i=0;i<p.size();i++ ) { auto& a=p[i]; auto& b=p[(i+1)%p.size()]; s=s+a.getX()*b.getY()-a.getY()*b.getX(); } return s*0.5; }
static Pts bpts( int n ) { Pts p{ {0,0}, {4,-1}, {5,3}, {2,4.5}, {-1.5,2} }; p.resize(n); return p; }
// one vertex symbolic, away from the others
static Pts sympts( int n, int k, Num x, Num y )
{ Pts p=bpts(n); p[k]=Point2d(x,y); for( int i=0;i<n;i++ ) if( i!=k ) assume( Or( absge(p[i].getX()-x,1e-3), absge(p[i].getY()-y,1e-3) ) ); return p; }
template<class P> void translateCase()
{
	int n=2+choose("n",4), how=choose("how",4), k=choose("k",2); Num x=in("x",-9,9), y=in("y",-9,9), dx=in("dx",-20,20), dy=in("dy",-20,20); Pts p=sympts(n,k,x,y);
	P a(p); if( how==0 ) a.translate(dx,dy); if( how==1 ) a.translate(std::make_pair(dx,dy)); if( how==2 ) translate(a,dx,dy); if( how==3 ) translate(a,std::make_pair(dx,dy));
	seqIs( static_cast<const P&>(a), moved(p,dx,dy), "translate" );
}
CASE(translate_closed) { translateCase<CPolyline>(); }
CASE(translate_open) { translateCase<OPolyline>(); }
template<class P> void moveCase()
{
	int n=2+choose("n",4), how=choose("how",4), k=choose("k",2); Num x=in("x",-9,9), y=in("y",-9,9), dx=in("dx",-20,20), dy=in("dy",-20,20); Pts p=sympts(n,k,x,y);
	P a(p); if( how==0 ) a.moveTo(dx,dy); if( how==1 ) a.moveTo(Point2d(dx,dy)); if( how==2 ) moveTo(a,dx,dy); if( how==3 ) moveTo(a,Point2d(dx,dy));
	seqIs( static_cast<const P&>(a), moved(p,dx-p[0].getX(),dy-p[0].getY()), "move" );
}
CASE(move_closed) { moveCase<CPolyline>(); }
CASE(move_open) { moveCase<OPolyline>(); }
template<class P> void rotateCase()
{
	int n=2+choose("n",4), r=choose("r",5), how=choose("how",4), k=choose("k",2); Num x=in("x",-9,9), y=in("y",-9,9), u=0, v=0; if( how>1 ) { u=in("u",-20,20); v=TH(Num(-3.5),in("v",-20,20)); if( k ) std::swap(u,v); } Pts p=sympts(n,k,x,y), e;
	P a(p); Point2d c(u,v); if( how==0 ) a.rotate(RT[r]); if( how==1 ) rotate(a,RT[r]); if( how==2 ) a.rotate(RT[r],c); if( how==3 ) rotate(a,RT[r],c);
	for( auto& q:p ) e.push_back( around(r,q,u,v) );
	seqIs( static_cast<const P&>(a), e, "rotate" );
}
CASE(rotate_closed) { rotateCase<CPolyline>(); }
CASE(rotate_open) { rotateCase<OPolyline>(); }
// rotation around one of its own points, given by reference
CASE(rotate_own_point)
{
	int r=choose("r",5), i=choose("i",4); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=sympts(4,2,x,y), e; CPolyline a(p); Point2d c=a.getPoint(i); a.rotate(RT[r],c);
	for( auto& q:p ) e.push_back( around(r,q,p[i].getX(),p[i].getY()) ); seqIs( static_cast<const CPolyline&>(a), e, "own" );
}
// chained moves: the last state counts, and four quarter turns (or two mirrors) are the identity
CASE(chained)
{
	int a=choose("a",4), b=choose("b",4); Num x=in("x",-9,9), y=in("y",-9,9), t=in("t",-9,9); Pts p=sympts(4,1,x,y); CPolyline c(p); OPolyline o(p);
	for( int k:{a,b} )
	{
		if( k==0 ) { c.translate(t,1); o.translate(t,1); p=moved(p,t,1); }
		if( k==1 ) { c.moveTo(2,t); o.moveTo(Point2d(2,t)); p=moved(p,2-p[0].getX(),t-p[0].getY()); }
		if( k==2 ) { c.rotate(Rotate::CCW); o.rotate(Rotate::CCW); for( auto& q:p ) q=mapPt(0,q); }
		if( k==3 ) { Point2d m(t,2); c.rotate(Rotate::HMirror,m); rotate(o,Rotate::HMirror,m); for( auto& q:p ) q=around(4,q,t,2); }
	}
	seqIs( static_cast<const CPolyline&>(c), p, "closed" ); seqIs( static_cast<const OPolyline&>(o), p, "open" );
}
CASE(identity)
{
	int r=choose("r",5); Num x=in("x",-9,9), y=in("y",-9,9), u=in("u",-9,9); Pts p=sympts(3,2,x,y); CPolyline c(p); Point2d q(u,1.25); 
	for( int i=0;i<(r<2?4:2);i++ ) c.rotate(RT[r],q); seqIs( static_cast<const CPolyline&>(c), p, "identity" );
}
// length, area, number of points kept; computed both before and after
CASE(measures_kept)
{
	int w=choose("w",4), pre=choose("pre",2); Num h=in("h",1,6), t=in("t",-9,9); Pts p{ {0,0}, {3,0}, {3,h}, {0,h} }; CPolyline c(p); OPolyline o(p);
	if( pre ) { check( near(c.area(),3*h), "area-before" ); check( near(c.length(),6+2*h), "length-before" ); check( near(o.length(),6+h), "open-before" ); }
	if( w==0 ) { c.translate(t,1); o.translate(t,1); } if( w==1 ) { c.moveTo(t,t); o.moveTo(t,t); } if( w==2 ) { c.rotate(Rotate::CW); o.rotate(Rotate::CW); } if( w==3 ) { c.rotate(Rotate::VMirror,Point2d(t,0)); o.rotate(Rotate::VMirror,Point2d(t,0)); }
	check( c.size()==4 && o.size()==4, "size" ); check( near(c.area(),3*h), "area" ); check( near(c.length(),6+2*h), "length" ); check( near(o.length(),6+h), "open" ); check( c.isSimple() && c.isConvex() && !o.isSimple(), "simple" );
	auto b=c.getBB().getPts(); const CPolyline& cc=c; auto z0=cc.getPts()[0], z2=cc.getPts()[2];
	check( And( near(b.first.getX()+b.second.getX(),z0.getX()+z2.getX()), near(b.first.getY()+b.second.getY(),z0.getY()+z2.getY()) ), "box" );
	check( nearpt( c.centroid(), (z0.getX()+z2.getX())/2, (z0.getY()+z2.getY())/2 ), "centroid" );
}
// through a homography, every type of map
template<class P> void homogCase()
{
	int w=choose("w",5), pre=choose("pre",2); Num x=in("x",-4,4), y=in("y",5,9), t=in("t",-3,3); Pts p{ {0,0}, {4,1}, {x,y} }, e; P a(p); if( pre ) a.length();
	Homogr H; if( w==0 ) H.setTranslation(t,2); if( w==1 ) { H.setScale(2,0.5); H.addTranslation(t,Num(0)); } if( w==2 ) { H.addTranslation(Num(1),t).addScale(Num(-2),Num(3)); } if( w==3 ) H=Homogr( std::vector<std::vector<Num>>{ {1,t,2},{0,2,1},{0,0,1} } ); if( w==4 ) { H=Homogr( std::vector<std::vector<Num>>{ {1,0,0},{0,1,t},{0.01,0.02,1} } ); }
	for( auto& q:p )
	{
		Num X=q.getX(), Y=q.getY();
		if( w==0 ) e.push_back( Point2d(X+t,Y+2) ); if( w==1 ) e.push_back( Point2d(2*X+t,0.5*Y) ); if( w==2 ) e.push_back( Point2d(-2*(X+1),3*(Y+t)) ); if( w==3 ) e.push_back( Point2d(X+t*Y+2,2*Y+1) );
		if( w==4 ) { Num d=0.01*X+0.02*Y+1; e.push_back( Point2d(X/d,(Y+t)/d) ); }
	}
	P b=H*a; seqIs( static_cast<const P&>(b), e, "image", 1e-5 ); seqIs( static_cast<const P&>(a), p, "source" );
}
CASE(homog_closed) { homogCase<CPolyline>(); }
CASE(homog_open) { homogCase<OPolyline>(); }
CASE(area_under_map)
{
	int pre=choose("pre",2); Num x=in("x",-3,3), s=in("s",0.5,3); Pts p{ {0,0}, {4,1}, {x,6} }; CPolyline a(p); if( pre ) { a.area(); a.centroid(); }
	Homogr H; H.setScale(s,2); CPolyline b=H*a; Pts q; for( auto& z:p ) q.push_back( Point2d(z.getX()*s,z.getY()*2) );
	check( near(b.area(),shoelace(q),1e-5), "area" ); check( near(a.area(),shoelace(p),1e-5), "area-source" );
	check( nearpt(b.centroid(),s*(4+x)/3,Num(14)/3,1e-5), "centroid" );
}
CASE(empty)
{
	CPolyline c; OPolyline o; Num x=in("x",-5,5); c.translate(x,1); o.translate(1,x); c.rotate(Rotate::CCW); o.rotate(Rotate::Full,Point2d(x,x)); check( c.size()==0 && o.size()==0, "empty" );
	check( throws([&]{c.moveTo(x,1);}) && throws([&]{o.moveTo(Point2d(1,x));}), "move" );
}
// containers of points, moved elementwise by a homography
CASE(containers)
{
	int t=choose("t",3); Num x=in("x",-9,9), y=in("y",-9,9), d=in("d",-9,9); Homogr H(d,1); Pts p{ {0,0}, {x,y}, {3,4} };
	auto chk=[&]( auto& v ) { auto r=H*v; size_t i=0; std::vector<Fm> f; for( auto& q:r ) { f.push_back( nearpt(q,p[i].getX()+d,p[i].getY()+1) ); i++; } check( i==3, "count" ); check( all(f), "image" ); };
	if( t==0 ) chk(p); if( t==1 ) { std::list<Point2d> l(p.begin(),p.end()); chk(l); } if( t==2 ) { std::array<Point2d,3> a{p[0],p[1],p[2]}; chk(a); }
	Pts r=p; H.applyTo(r); check( all( std::vector<Fm>{ nearpt(r[0],d,1), nearpt(r[1],x+d,y+1), nearpt(r[2],3+d,5) } ), "applyTo" );
}
// more points, far away or of other sizes
CASE(big)
{
	int k=choose("k",3), w=TH(k+1,choose("place",4)), op=choose("op",8), r=choose("rot",5), j=choose("j",3); if( op>3 && r>0 && op!=4 && op!=5 ) return; Num t=in("t",-0.3,0.3), u=in("u",-9,9); Pts b=bigShape(k); b[j*3]=Point2d( b[j*3].getX()+t, b[j*3].getY()-t );
	Pts p=placed(b,w), e; CPolyline c(p); OPolyline o(p); Point2d m(u,-2*u+1);
	switch( op )
	{
		case 0: c.rotate(RT[r]); o.rotate(RT[r]); for( auto& q:p ) e.push_back( around(r,q,0,0) ); break;
		case 1: c.rotate(RT[r],m); o.rotate(RT[r],m); for( auto& q:p ) e.push_back( around(r,q,u,-2*u+1) ); break;
		case 2: rotate(c,RT[r]); rotate(o,RT[r]); for( auto& q:p ) e.push_back( around(r,q,0,0) ); break;
		case 3: rotate(c,RT[r],m); rotate(o,RT[r],m); for( auto& q:p ) e.push_back( around(r,q,u,-2*u+1) ); break;
		case 4: c.rotate(RT[r],p[2]); o.rotate(RT[r],p[2]); for( auto& q:p ) e.push_back( around(r,q,p[2].getX(),p[2].getY()) ); break;
		case 5: c.translate(u,2); c.rotate(RT[r]); o.translate(u,2); o.rotate(RT[r]); for( auto& q:moved(p,u,2) ) e.push_back( around(r,q,0,0) ); break;
		case 6: c.moveTo(m); o.moveTo(m); e=moved( p, u-p[0].getX(), -2*u+1-p[0].getY() ); break;
		default: c=Homogr(u,Num(3))*c; o=Homogr(u,Num(3))*o; e=moved(p,u,3);
	}
	seqIs( static_cast<const CPolyline&>(c), e, "closed", 1e-4 ); seqIs( static_cast<const OPolyline&>(o), e, "open", 1e-4 );
}
// after everything was computed once: the answers are those of a polyline built with the new points
CASE(after_queries)
{
	int w=choose("w",9), k=choose("k",3); Num x=in("x",-9,9), y=in("y",1,9); Pts p=shape(k), e; p[1]=Point2d(p[1].getX()+y,p[1].getY()-y/2); Pts base=moved(p,x,3);
	CPolyline c(base), d( moved(base,77,0) ); OPolyline o(base), q( moved(base,77,0) ); (void)c.length(); (void)o.length(); (void)c.area(); bool simple=c.isSimple(); (void)c.isConvex(); if( simple ) (void)c.centroid(); (void)c.getBB(); (void)(c==d); (void)(o==q);
	c=CPolyline(base); o=OPolyline(base); (void)c.length(); (void)o.length(); (void)c.area(); if( c.isSimple() ) (void)c.centroid(); (void)c.isConvex(); 
	Point2d m(2,-1);
	for( auto& z:base ) e.push_back( w<5? mapPt(w,z) : w==5? around(0,z,2,-1) : w==6? Point2d(z.getX()+5,z.getY()-3) : w==7? Point2d(z.getX()-base[0].getX(),z.getY()-base[0].getY()) : around(3,z,2,-1) );
	auto f=[&]( auto& a ) { if( w<5 ) a.rotate(RT[w]); if( w==5 ) a.rotate(Rotate::CCW,m); if( w==6 ) a.translate(5,-3); if( w==7 ) a.moveTo(0,0); if( w==8 ) a.rotate(Rotate::VMirror,m); }; f(c); f(o);
	seqIs( static_cast<const CPolyline&>(c), e, "closed" ); seqIs( static_cast<const OPolyline&>(o), e, "open" ); CPolyline g(e); OPolyline h(e);
	check( And( near(c.length(),g.length(),1e-6), near(o.length(),h.length(),1e-6) ), "length" ); check( near(c.area(),g.area(),1e-5), "area" ); check( c.isSimple()==g.isSimple() && c.isConvex()==g.isConvex(), "predicates" ); if( g.isSimple() ) check( nearpt( c.centroid(), g.centroid(), 1e-4 ), "centroid" );
	auto b=c.getBB().getPts(), t=g.getBB().getPts(); check( And( nearpt(b.first,t.first,1e-6), nearpt(b.second,t.second,1e-6) ), "box" ); check( c==g && g==c && o==h, "equal" );
}
// compared, then moved, then compared
CASE(compared_moved)
{
	int w=choose("w",5), k=choose("k",3); Num x=in("x",-9,9), y=in("y",1,9); Pts p=shape(k), e; p[1]=Point2d(p[1].getX()+y,p[1].getY()-y/2); p=moved(p,x,3); for( auto& z:p ) e.push_back( mapPt(w,z) );
	CPolyline c(p), d(e), c2(p); OPolyline o(p), r(e), o2(p); check( c==c2 && o==o2, "copy" ); bool was=c==d; (void)was; c.rotate(RT[w]); o.rotate(RT[w]); check( c==d && o==r, "rotated" ); 
	if( w>=2 ) { c.rotate(RT[w]); o.rotate(RT[w]); check( c==c2 && o==o2, "back" ); }
}
