#include "geom.hpp"
static Pts bpts( int n ) { Pts p{ {0,0}, {4,-1}, {5,3}, {2,4.5}, {-1.5,2} }; p.resize(n); return p; }
// x: the symbolic coordinates are either the ones of another point or clearly something else
static void apart( const Pts& p, size_t k, bool distinct=true )
{ for( size_t i=0;i<p.size();i++ ) if( i!=k ) { clearly( p[i].getX()-p[k].getX(), 1e-3 ); clearly( p[i].getY()-p[k].getY(), 1e-3 ); if( distinct ) assume( Or( absge(p[i].getX()-p[k].getX(),1e-3), absge(p[i].getY()-p[k].getY(),1e-3) ) ); } }
static const CardDir CD[4]={CardDir::Top,CardDir::Bottom,CardDir::Left,CardDir::Right};
// nothing goes further in the direction; with equality, the smallest other coordinate
static Fm extreme( int d, const Point2d& q, const Pts& p )
{
	std::vector<Fm> f;
	for( auto& z:p )
	{
		Num a= d<2? q.getY()-z.getY() : q.getX()-z.getX(); if( d==1||d==2 ) a=-a; Num b= d<2? z.getX()-q.getX() : z.getY()-q.getY();
		f.push_back( Or( gt(a,0), And( eq(a,0), ge(b,0) ) ) );
	}
	return all(f);
}
template<class C> std::pair<Point2d,long> byName( int d, const C& c )
{ if( d==0 ) return getTmPoint(c); if( d==1 ) return getBmPoint(c); if( d==2 ) return getLmPoint(c); return getRmPoint(c); }
static void isExtreme( int d, const std::pair<Point2d,long>& r, const Pts& p, const std::string& w )
{
	check( r.second>=0 && r.second<long(p.size()), w+"-index" ); if( r.second<0 || r.second>=long(p.size()) ) return;
	check( And( eq(r.first.getX(),p[r.second].getX()), eq(r.first.getY(),p[r.second].getY()) ), w+"-member" ); check( extreme(d,r.first,p), w+"-extreme" );
}
CASE(container)
{
	int d=choose("d",4), n=1+choose("n",5), t=choose("type",3), k=choose("k",2); if( k>=n ) k=0; Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); p[k]=Point2d(x,y); apart(p,k,false);
	if( t==0 ) { isExtreme( d, byName(d,p), p, "name" ); isExtreme( d, getExtremePoint(CD[d],p), p, "generic" ); }
	if( t==1 ) { std::list<Point2d> l(p.begin(),p.end()); isExtreme( d, byName(d,l), p, "name-list" ); isExtreme( d, getExtremePoint(CD[d],l), p, "generic-list" ); }
	if( t==2 ) { std::array<Point2d,3> a{ Point2d(1,2), Point2d(x,y), Point2d(3,2) }; Pts q(a.begin(),a.end()); apart(q,1,false); isExtreme( d, byName(d,a), q, "name-array" ); isExtreme( d, getExtremePoint(CD[d],a), q, "generic-array" ); }
}
CASE(two_symbolic)
{
	int d=choose("d",4); Num x=in("x",-9,9), y=in("y",-9,9), z=in("z",-9,9); Pts p{ {1,1}, {x,y}, {z,2}, {3,z} }; isExtreme( d, byName(d,p), p, "name" );
}
template<class P> void polyCase()
{
	int d=choose("d",4), n=2+choose("n",4), k=choose("k",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); p[k]=Point2d(x,y); apart(p,k); P a(p); const P& c=a;
	Point2d m= d==0? c.getTmPoint() : d==1? c.getBmPoint() : d==2? c.getLmPoint() : c.getRmPoint(), f= d==0? getTmPoint(c) : d==1? getBmPoint(c) : d==2? getLmPoint(c) : getRmPoint(c), g=getExtremePoint(CD[d],c), h=c.getExtremePoint(CD[d]);
	auto member=[&]( const Point2d& q ) { std::vector<Fm> v; for( auto& z:p ) v.push_back( And( eq(q.getX(),z.getX()), eq(q.getY(),z.getY()) ) ); return any(v); };
	check( And( member(m), extreme(d,m,p) ), "member-function" ); check( And( member(f), extreme(d,f,p) ), "free-function" ); check( And( member(g), extreme(d,g,p) ), "generic" ); check( And( member(h), extreme(d,h,p) ), "generic-member" );
}
CASE(closed) { polyCase<CPolyline>(); }
CASE(open) { polyCase<OPolyline>(); }
CASE(after_change)
{
	int d=choose("d",4), w=choose("w",3); Num x=in("x",-9,9), u=in("u",-9,9); Pts p{ {0,0}, {4,1}, {x,5} }; CPolyline a(p); a.getTmPoint(); a.length();
	if( w==0 ) { a.translate(u,x); p=moved(p,u,x); } if( w==1 ) { a.rotate(Rotate::CW); for( auto& q:p ) q=Point2d(q.getY(),-q.getX()); } if( w==2 ) { away(x-7,1e-3); p.push_back( Point2d(7,u) ); a.set(p); }
	Point2d m=a.getExtremePoint(CD[d]); check( extreme(d,m,p), "changed" );
}
CASE(empty)
{
	int d=choose("d",4); Num x=in("x",0,1); Pts e; CPolyline c; OPolyline o; (void)x; check( throws([&]{ byName(d,e); }) && throws([&]{ getExtremePoint(CD[d],e); }), "container" ); check( throws([&]{ getExtremePoint(CD[d],c); }) && throws([&]{ o.getLmPoint(); }) && throws([&]{ c.getTmPoint(); }) && throws([&]{ c.getRmPoint(); }) && throws([&]{ c.getBmPoint(); }), "polyline" );
}
// order of points and lines used to sort: strict, total over distinct points, x first
CASE(point_order)
{
	Num x=in("x",-9,9), y=in("y",-9,9), z=in("z",-9,9), t=in("t",-9,9); clearly(x-z,1e-3); clearly(y-t,1e-3); Point2d a(x,y), b(z,t); bool l=a<b, g=b<a, e=a==b; check( int(l)+int(g)+int(e)==1, "trichotomy" ); check( (a!=b)==!e, "different" );
	check( ge(Num(l?1:0)*1,0), "defined" ); if( l ) check( Or( lt(x,z), And( eq(x,z), lt(y,t) ) ), "less" ); if( e ) check( And( eq(x,z), eq(y,t) ), "equal" ); if( g ) check( Or( lt(z,x), And( eq(x,z), lt(t,y) ) ), "greater" );
}
CASE(segment_order)
{
	int k=choose("k",2); Num x=in("x",-9,9), y=in("y",-9,9); for( double v:{0.,3.} ) { away(x-v,1e-3); away(y-v,1e-3); } Segment a(Point2d(0,0),Point2d(3,3)), b(Point2d(x,y),k?Point2d(0,0):Point2d(3,3)); bool l=a<b, g=b<a; check( !(l&&g), "asymmetric" ); check( !(a<a) && !(b<b), "irreflexive" );
}
CASE(big)
{
	int d=choose("d",4), k=choose("k",3), w=TH(k+1,choose("place",4)), j=choose("j",3), t=choose("type",3); Num x=in("x",-9,9), y=in("y",-9,9); Pts b=bigShape(k); j=j==2? b.size()-1 : j*4; b[j]=Point2d(x,y); apart(b,j); Pts p=placed(b,w);
	if( t==0 ) { isExtreme( d, byName(d,p), p, "name" ); isExtreme( d, getExtremePoint(CD[d],p), p, "generic" ); }
	else { CPolyline c(p); OPolyline o(p); check( extreme( d, t==1? c.getExtremePoint(CD[d]) : getExtremePoint(CD[d],o), p ), "polyline" ); }
}
// several points level in the direction
CASE(level)
{
	int d=choose("d",4), r=choose("r",7), v=choose("rev",2); Num u=in("u",-9,9), a=in("a",-3,3); clearly(a-1,1e-3); clearly(a-2,1e-3); Pts p; double T[7]={2,-1,0,5,1,3,-2};
	for( int i=0;i<7;i++ ) { Num l= i==2||i==4||i==5? u : i==6? u-a*a-1 : u+(i==0?a*0:a*a+1)*( d==0||d==3 ? -1 : 1 ), z= i==5? a : Num(T[i]); if( i==6 ) l=u+( d==0||d==3 ? -1 : 1 )*(a*a+1); p.push_back( d<2? Point2d(z,l) : Point2d(l,z) ); }
	std::rotate( p.begin(), p.begin()+r, p.end() ); if( v ) std::reverse( p.begin(), p.end() ); isExtreme( d, byName(d,p), p, "name" ); isExtreme( d, getExtremePoint(CD[d],p), p, "generic" );
}
