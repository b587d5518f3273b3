#include "geom.hpp"
static Pts turned( Pts p, int r, bool rev ) { std::rotate( p.begin(), p.begin()+r%p.size(), p.end() ); if( rev ) std::reverse( p.begin(), p.end() ); return p; }
static Fm samePt( const Point2d& a, const Point2d& b ) { return nearpt(a,b,1e-9); }
static void seqIs( const std::vector<Point2d>& v, const Pts& e, const std::string& w )
{
	check( v.size()==e.size(), w+"-count" ); if( v.size()!=e.size() ) return;
	std::vector<Fm> f; for( size_t i=0;i<v.size();i++ ) f.push_back( samePt(v[i],e[i]) ); check( all(f), w+"-points" );
}
// the symbolic vertex is away from the others and (in x) from being level with them
static void apart( const Pts& p, size_t k, bool level=true )
{ for( size_t i=0;i<p.size();i++ ) if( i!=k ) { if( level ) away( p[i].getX()-p[k].getX(), 1e-3 ); else assume( Or( absge(p[i].getX()-p[k].getX(),1e-3), absge(p[i].getY()-p[k].getY(),1e-3) ) ); } }
static Pts bpts( int n ) { Pts p{ {0,0}, {4,-1}, {5,3}, {2,4.5}, {-1.5,2} }; p.resize(n); return p; }
CASE(closed_equal)
{
	int n=3+choose("n",3), r=choose("r",n), v=choose("rev",2); Num x=in("x",-6,6), y=in("y",-6,6); Pts p=bpts(n); p[1]=Point2d(x,y); apart(p,1);
	away( cross(p[0],p[1],p[2]), 1e-3 ); for( size_t i=0;i<p.size();i++ ) away( cross( p[i],p[(i+1)%n],p[(i+2)%n] ), 1e-3 );
	CPolyline a(p), b(turned(p,r,v)); check( a==b && b==a, "cycle" ); check( !(a!=b), "not-different" ); check( a==a, "self" );
	check( a.size()==size_t(n) && b.size()==size_t(n), "sizes" );
}
// one vertex differs
CASE(closed_other)
{
	int n=3+choose("n",2), r=choose("r",n), v=choose("rev",2), k=choose("k",3); Num d=in("d",-2,2); away(d,0.01);
	Pts p=bpts(n), q=p; q[k]=Point2d( p[k].getX()+d*0.3, p[k].getY()-d*0.2 );
	CPolyline a(p), b(turned(q,r,v)); check( a!=b && b!=a && !(a==b), "different" );
}
// same points in another cyclic order
CASE(closed_order)
{
	int r=choose("r",4), v=choose("rev",2), s=choose("s",2); Num x=in("x",-6,6), y=in("y",-6,6); Pts p=bpts(4); p[2]=Point2d(x,y); apart(p,2);
	Pts q=p; std::swap( q[s?2:0], q[s?3:1] ); CPolyline a(p), b(turned(q,r,v)); check( a!=b, "other-order" );
}
CASE(closed_aligned)
{
	int r=choose("r",3), v=choose("rev",2); Num u=in("u",0.5,3.5); Pts p{ {0,0}, {u,u}, {4,4} };
	CPolyline a(p), b(turned(p,r,v)); check( a==b && b==a, "flat" );
	Pts q{ {0,0}, {2,u}, {4,2*u}, {3,5} }; away(10-3*u,1e-3); CPolyline c(q), d(turned(q,r,v)); check( c==d, "aligned" );
}
CASE(open_equal)
{
	int n=2+choose("n",4); Num x=in("x",-6,6), y=in("y",-6,6); Pts p=bpts(n); int k=choose("where",2)?n-1:0; p[k]=Point2d(x,y); apart(p,k);
	OPolyline a(p), b(turned(p,0,true)), c(p); check( a==c, "same" ); check( a==b && b==a && !(a!=b), "reversed" );
	if( n>2 ) { OPolyline d(turned(p,1,false)); check( a!=d && !(d==a), "rotated" ); }
}
CASE(open_other)
{
	int n=2+choose("n",3), k=choose("k",2), v=choose("rev",2); Num d=in("d",-2,2); away(d,0.01); Pts p=bpts(n), q=p; q[k]=Point2d( p[k].getX()+d*0.3, p[k].getY()-d*0.2 );
	OPolyline a(p), b(turned(q,0,v)); check( a!=b && b!=a, "different" );
}
CASE(different_sizes)
{
	Num x=in("x",-6,6), y=in("y",5,9); Pts p=bpts(4), q=p; q.push_back( Point2d(x,y) );
	CPolyline a(p), b(q); OPolyline c(p), d(q), e; CPolyline f; check( a!=b && b!=a && c!=d && d!=c, "size" ); check( a!=c && c!=a && d!=b, "type" );
	check( e==OPolyline() && f==CPolyline() && e!=c && f!=a, "empty" );
}
CASE(equal_after_change)
{
	int w=choose("w",6); Num u=in("u",-4,4); Pts p=bpts(4), q=p; CPolyline a(p), b(turned(p,2,true)); bool e1= a==b;
	for( auto& z:q ) z= w==0? Point2d(z.getX()+u,z.getY()+1) : w==1? Point2d(-z.getY(),z.getX()) : w==2? Point2d(z.getX(),2*u-z.getY()) : w==3? Point2d(-z.getX(),-z.getY()) : z;
	if( w==0 ) a.translate(u,1); if( w==1 ) a.rotate(Rotate::CCW); if( w==2 ) a.rotate(Rotate::HMirror,Point2d(3,u)); if( w==3 ) a.rotate(Rotate::Full);
	if( w==4 ) { for( auto& z:a.getPts() ) z.translate(u,0); for( auto& z:q ) z.translate(u,0); }
	if( w==5 ) { q[2]=Point2d(5,3.5+0.1*u); a.set(q); }
	check( e1, "before" ); check( a==CPolyline(q), "after" ); check( CPolyline(turned(q,3,true))==a, "after-turned" );
}
// data reported
CASE(data)
{
	int n=2+choose("n",4), k=choose("k",2), t=choose("type",3); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); p[k]=Point2d(x,y); apart(p,k,false);
	CPolyline c; OPolyline o; if( t==0 ) { c=CPolyline(p); o=OPolyline(p); } if( t==1 ) { c.set(p); o.set(p); } if( t==2 ) { std::list<Point2d> l(p.begin(),p.end()); c=CPolyline(l); o.set(l); }
	const CPolyline& cc=c; const OPolyline& co=o;
	check( c.size()==size_t(n) && size(o)==size_t(n), "size" ); check( c.isClosed() && !o.isClosed(), "closed" ); check( c.type()==Type::CPolyline && o.type()==Type::OPolyline, "type" );
	seqIs( cc.getPts(), p, "closed" ); seqIs( co.getPts(), p, "open" );
	check( c.nbSegs()==size_t(n) && o.nbSegs()==size_t(n-1) && nbSegs(c)==size_t(n), "nbsegs" );
	auto sc=c.getSegs(), so=getSegs(o); auto oc=c.getOSegs(), oo=o.getOSegs(); check( sc.size()==size_t(n) && so.size()==size_t(n-1) && oc.size()==size_t(n) && oo.size()==size_t(n-1), "segs" );
	for( int i=0;i<n;i++ )
	{
		check( samePt( c.getPoint(i), p[i] ), "point" ); check( samePt( o.getPoint(i), p[i] ), "point-open" );
		const Point2d &a=p[i], &b=p[(i+1)%n];
		check( And( samePt( oc[i].getPts().first, a ), samePt( oc[i].getPts().second, b ) ), "oseg" ); auto g=c.getOSegment(i); check( And( samePt( g.getPts().first, a ), samePt( g.getPts().second, b ) ), "osegment" );
		auto h=c.getSegment(i).getPts(), l=sc[i].getPts(); for( auto& z:{h,l} ) check( Or( And( samePt(z.first,a), samePt(z.second,b) ), And( samePt(z.first,b), samePt(z.second,a) ) ), "seg" );
		if( i+1<n ) { check( And( samePt( oo[i].getPts().first, a ), samePt( oo[i].getPts().second, b ) ), "oseg-open" ); auto q=o.getOSegment(i); check( And( samePt( q.getPts().first, a ), samePt( q.getPts().second, b ) ), "osegment-open" );
			auto z=o.getSegment(i).getPts(), zz=so[i].getPts(); for( auto& y2:{z,zz} ) check( Or( And( samePt(y2.first,a), samePt(y2.second,b) ), And( samePt(y2.first,b), samePt(y2.second,a) ) ), "seg-open" ); }
	}
	check( throws([&]{c.getPoint(n);}) && throws([&]{o.getPoint(n);}) && throws([&]{c.getSegment(n);}) && throws([&]{o.getSegment(n-1);}) && throws([&]{o.getOSegment(n-1);}), "out-of-range" );
}
CASE(empty)
{
	CPolyline c; OPolyline o; Num x=in("x",0,5); check( c.size()==0 && o.size()==0 && c.nbSegs()==0 && o.nbSegs()==0 && c.getSegs().empty() && o.getOSegs().empty(), "empty" );
	check( throws([&]{c.getPoint(0);}) && throws([&]{o.getSegment(0);}) && throws([&]{c.moveTo(x,1);}) && throws([&]{c.getBB();}), "throws" );
	Pts p=bpts(3); p[0]=Point2d(-x,1); c.set(p); c.clear(); check( c.size()==0 && c==CPolyline(), "cleared" );
}
CASE(array_and_conversions)
{
	Num x=in("x",-9,9), y=in("y",5,9); std::array<Point2d,3> a{ Point2d(0,0), Point2d(4,1), Point2d(x,y) }; Pts p(a.begin(),a.end());
	CPolyline c(a); seqIs( static_cast<const CPolyline&>(c).getPts(), p, "array" ); OPolyline o(a); CPolyline d(o); check( d==c, "closed-from-open" ); CPolyline e; e=o; check( e==c, "assign-open" );
	OPolyline f(o); check( f==o, "copy" ); CPolyline g(c); check( g==c, "copy-closed" );
	Segment s(Point2d(x,y),Point2d(0,0)); OPolyline h(s); check( h==OPolyline( Pts{ {0,0}, {x,y} } ), "segment" ); CPolyline hc(s); check( hc.size()==2, "segment-closed" );
	FRect r( Point2d(x,y), Point2d(10,0) ); CPolyline k(r); Pts q{ {x,0}, {x,y}, {10,y}, {10,0} }; seqIs( static_cast<const CPolyline&>(k).getPts(), q, "rect" ); CPolyline k2; k2.set(r); check( k2==k, "set-rect" );
}
CASE(accepted_close)
{
	int n=2+choose("n",3), i=choose("i",n); Num u=in("u",-1,1), v=in("v",-1,1); assume( Or( absge(u,1e-6), absge(v,1e-6) ) );
	Pts p=bpts(n); p[(i+1)%n]=Point2d( p[i].getX()+u, p[i].getY()+v );
	check( !throws([&]{CPolyline c(p);}) && !throws([&]{OPolyline o(p);}), "accepted" );
}
CASE(rejected_equal)
{
	int n=2+choose("n",3), i=choose("i",n), t=choose("type",3); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); p[i]=Point2d(x,y); p[(i+1)%n]=Point2d(x,y);
	bool a= t==0? throws([&]{CPolyline c(p);}) : t==1? throws([&]{CPolyline c; c.set(p);}) : throws([&]{ std::list<Point2d> l(p.begin(),p.end()); CPolyline c(l);});
	bool b= t==0? throws([&]{OPolyline c(p);}) : t==1? throws([&]{OPolyline c; c.set(p);}) : throws([&]{ std::list<Point2d> l(p.begin(),p.end()); OPolyline c(l);});
	check( a, "duplicate-closed" ); check( b, "duplicate-open" );
	Pts one{ {x,y} }; check( throws([&]{CPolyline c(one);}) && throws([&]{OPolyline c; c.set(one);}), "single" );
}
CASE(repeated_not_consecutive)
{
	Num x=in("x",-3,3), y=in("y",5,9); Pts p{ {x,y}, {4,0}, {x,y}, {0,1} }; CPolyline c(p); OPolyline o(p); check( c.size()==4 && o.size()==4, "kept" );
}
// the smallest point of the polyline appears more than once
CASE(closed_repeated_minimum)
{
	int n=4+choose("n",3), r=1+choose("r",n-1), v=choose("rev",2), k=2+choose("k",n==4?1:2); Num x=in("x",1,6), y=in("y",-6,6);
	Pts p{ {0,0}, {4,-1}, {5,3}, {2,4.5}, {3,-2}, {1,2.5} }; p.resize(n); p[1]=Point2d(x,y); p[k]=p[0]; apart(p,1);
	CPolyline a(p), b(turned(p,r,v)); check( a==b && b==a, "cycle" ); check( !(a!=b), "not-different" );
	Pts q=p; q[1]=Point2d(x,y+0.5); apart(q,1); CPolyline c(turned(q,r,v)); check( c!=a && a!=c, "different" );
}
// more vertices, other sizes and places
CASE(big)
{
	int k=choose("k",3), w=choose("place",4), v=choose("rev",2), r=choose("r",4), o=choose("order",2); Num t=in("t",-0.3,0.3); Pts b=bigShape(k); size_t n=b.size(), j=r*2+1;
	b[j]=Point2d( b[j].getX()+t, b[j].getY()-0.5*t ); Pts p=placed(b,w); CPolyline a(p), c(turned(p,n-1-r,v)); if( o ) (void)c.length();
	check( a==c && c==a && !(a!=c), "cycle" ); OPolyline e(p), f(turned(p,0,true)), g(turned(p,r+1,v)); check( e==f && f==e, "reversed" ); check( e!=g, "turned" );
	Pts q=p; std::swap( q[n-1], q[n-2] ); CPolyline d(turned(q,r,v)); check( d!=a && !(a==d), "order" ); q=p; q[n-2]=Point2d( q[n-2].getX(), q[n-2].getY()+t+0.5 ); CPolyline h(q); check( h!=a && a!=h, "vertex" );
	CPolyline m(p); check( size_t(m.getSegs().size())==n && m.nbSegs()==n && m.getOSegs().size()==n, "segments" ); for( size_t i=0;i<n;i++ ) { auto z=m.getOSegment(i).getPts(); check( And( samePt(z.first,p[i]), samePt(z.second,p[(i+1)%n]) ), "oseg" ); }
}
CASE(rejected_equal_big)
{
	int k=choose("k",3), i=choose("i",11), t=choose("type",4); Pts p=bigShape(k); int n=p.size(); if( i>=n ) return; Num x=in("x",-9,9); p[i]=p[(i+1)%n]=Point2d(x,20);
	auto go=[&]( auto c ) { using P=decltype(c); if( t==0 ) { P z(p); (void)z; } if( t==1 ) c.set(p); if( t==2 ) { std::list<Point2d> l(p.begin(),p.end()); c.set(l); } if( t==3 ) { std::list<Point2d> l(p.begin(),p.end()); P z(l); (void)z; } };
	check( throws([&]{ go(CPolyline()); }), "closed" ); check( throws([&]{ go(OPolyline()); }), "open" );
}
