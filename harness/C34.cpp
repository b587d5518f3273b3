#include "geom.hpp"
static Pts bpts( int n ) { Pts p{ {0,0}, {4,-1}, {5,3}, {2,4.5}, {-1.5,2} }; p.resize(n); return p; }
static bool same( const Point2d& a, const Point2d& b ) { return branch( And( eq(a.getX(),b.getX()), eq(a.getY(),b.getY()) ) ); }
// the points are either equal or clearly different
static void distinctOrEqual( const Point2d& a, const Point2d& b ) { clearly( a.getX()-b.getX(), 1e-3 ); clearly( a.getY()-b.getY(), 1e-3 ); }
static Fm nearest( const Point2d& q, const Pts& p, size_t i, double tol=0 )
{ std::vector<Fm> f; for( auto& z:p ) if( !same(q,z) ) f.push_back( le( d2(q,p[i]), d2(q,z)+tol ) ); return And( all(f), Not( And( eq(q.getX(),p[i].getX()), eq(q.getY(),p[i].getY()) ) ) ); }
static Fm farthest( const Point2d& q, const Pts& p, size_t i, double tol=0 )
{ std::vector<Fm> f; for( auto& z:p ) if( !same(q,z) ) f.push_back( ge( d2(q,p[i]), d2(q,z)-tol ) ); return And( all(f), Not( And( eq(q.getX(),p[i].getX()), eq(q.getY(),p[i].getY()) ) ) ); }
template<class C> void chk( const Point2d& q, const C& c, const Pts& p, const std::string& w )
{
	size_t n=findNearestPoint(q,c), f=findFarthestPoint(q,c); auto b=findNearestFarthestPoint(q,c); check( n<p.size() && f<p.size() && b.first<p.size() && b.second<p.size(), w+"-index" ); if( !( n<p.size() && f<p.size() && b.first<p.size() && b.second<p.size() ) ) return;
	check( nearest(q,p,n,1e-12), w+"-nearest" ); check( farthest(q,p,f,1e-12), w+"-farthest" ); check( nearest(q,p,b.first,1e-12), w+"-both-nearest" ); check( farthest(q,p,b.second,1e-12), w+"-both-farthest" );
}
CASE(query)
{
	int n=2+choose("n",TH(3,4)), t=choose("type",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); Point2d q(x,y); for( auto& z:p ) distinctOrEqual(q,z);
	if( t==0 ) chk( q, p, p, "vector" ); else { std::array<Point2d,3> a{ Point2d(1,2), Point2d(3,0), Point2d(-2,1) }; for( auto& z:a ) distinctOrEqual(q,z); chk( q, a, Pts(a.begin(),a.end()), "array" ); }
}
CASE(member)
{
	int n=2+choose("n",3), k=choose("k",n); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); p[k]=Point2d(x,y); Point2d q(1,1); for( auto& z:p ) distinctOrEqual(q,z); assume( Not( And( eq(x,1), eq(y,1) ) ) ); chk( q, p, p, "member" );
}
// the query point belongs to the container, once or several times
CASE(query_is_member)
{
	int n=3+choose("n",2), k=choose("k",n); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); Point2d q(x,y); for( auto& z:p ) assume( Or( absge(z.getX()-x,1e-3), absge(z.getY()-y,1e-3) ) ); p[k]=q; chk( q, p, p, "member" );
}
CASE(query_is_repeated)
{
	int k=choose("k",6); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(4); Point2d q(x,y); for( auto& z:p ) assume( Or( absge(z.getX()-x,1e-3), absge(z.getY()-y,1e-3) ) ); static const int I[6][2]={ {0,1},{0,2},{0,3},{1,2},{1,3},{2,3} }; p[I[k][0]]=q; p[I[k][1]]=q; chk( q, p, p, "member" );
}
CASE(three_repeated)
{ Num x=in("x",-9,9), y=in("y",-9,9); Pts p{ {x,y}, {x,y}, {x,y}, {1,2}, {3,-1} }; for( int i=3;i<5;i++ ) assume( Or( absge(p[i].getX()-x,1e-3), absge(p[i].getY()-y,1e-3) ) ); chk( Point2d(x,y), p, p, "member" ); }
CASE(too_few)
{
	Num x=in("x",-9,9), y=in("y",-9,9); Pts p, q{ {1,2} }; Point2d z(x,y); std::array<Point2d,1> a{ Point2d(0,3) };
	check( throws([&]{ findNearestPoint(z,p); }) && throws([&]{ findFarthestPoint(z,p); }) && throws([&]{ findNearestFarthestPoint(z,p); }), "empty" ); check( throws([&]{ findNearestPoint(z,q); }) && throws([&]{ findFarthestPoint(z,q); }) && throws([&]{ findNearestFarthestPoint(z,q); }) && throws([&]{ findNearestPoint(z,a); }), "one" );
}
// every point is the query point: there is no answer
CASE(only_query)
{
	int n=2+choose("n",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p(n,Point2d(x,y)); Point2d q(x,y); check( throws([&]{ findNearestPoint(q,p); }) && throws([&]{ findFarthestPoint(q,p); }) && throws([&]{ findNearestFarthestPoint(q,p); }), "throws" );
}
// ---- closest points of two polylines
template<class A,class B> void closest( const Pts& p, const Pts& q )
{
	A a(p); B b(q); auto c=getClosestPoints(a,b); auto i=c.getIndexes(); auto pp=c.getPoints(); Num d=c.getMinDist(); check( i.first<p.size() && i.second<q.size(), "index" ); if( i.first>=p.size() || i.second>=q.size() ) return;
	check( And( nearpt(pp.first,p[i.first]), nearpt(pp.second,q[i.second]) ), "points" ); Num e=d2(p[i.first],q[i.second]); check( And( ge(d,0), near(d*d,e,1e-5) ), "distance" );
	std::vector<Fm> f; for( auto& u:p ) for( auto& v:q ) f.push_back( le( e, d2(u,v)+1e-9 ) ); check( all(f), "closest" );
}
static void pair( Pts& p, Pts& q )
{ int k=choose("k",3), n=2+choose("n",2), m=2+choose("m",2); Num x=in("x",-12,12), y=in("y",-12,12); p=bpts(n); q=moved(bpts(m),6,1); if( k==0 ) p[0]=Point2d(x,y); if( k==1 ) q[m-1]=Point2d(x,y); if( k==2 ) q=moved(q,x,y); for( auto v:{&p,&q} ) for( size_t i=0;i+1<v->size();i++ ) for( size_t j=i+1;j<v->size();j++ ) assume( Or( absge((*v)[i].getX()-(*v)[j].getX(),1e-3), absge((*v)[i].getY()-(*v)[j].getY(),1e-3) ) ); }
CASE(closest_closed) { Pts p,q; pair(p,q); closest<CPolyline,CPolyline>(p,q); }
CASE(closest_open) { Pts p,q; pair(p,q); if( choose("o",2) ) closest<CPolyline,OPolyline>(p,q); else closest<OPolyline,OPolyline>(p,q); }
CASE(closest_empty) { Num x=in("x",-9,9); CPolyline a( Pts{ {x,0}, {1,20} } ); OPolyline e; check( throws([&]{ getClosestPoints(a,e); }) && throws([&]{ getClosestPoints(e,a); }) && throws([&]{ getClosestPoints(e,e); }), "empty" ); }
CASE(big)
{
	int k=choose("k",3), w=choose("place",4), m=choose("m",2); Num u=in("u",-12,12); Pts b=bigShape(k); Point2d q(u,0.37*u+2.13); if( m ) { b[5]=q; q=Point2d(3,3.1); } for( auto& z:b ) distinctOrEqual(q,z); Pts p=placed(b,w); chk( placed(Pts{q},w)[0], p, p, "big" );
}
CASE(closest_big)
{
	int o=choose("o",2), w=TH(o+1,choose("place",4)), k=choose("k",2); Num u=in("u",-9,9); Pts p=placed(bigShape(k),w), q=placed( moved( Pts{ {0,0}, {1,-2}, {3,0.5}, {2.2,2}, {1.1,2.3}, {0.2,1.4} }, o? u : Num(10), o? Num(-5) : u ), w ); closest<CPolyline,OPolyline>(p,q);
}
// the answer may be at any index of either
CASE(closest_any_index)
{
	int i=choose("i",7), j=choose("j",7), o=choose("o",2); Num u=in("u",-0.5,0.5);
	Pts p{ {0,0}, {-4,-3}, {-6,1}, {-5,4}, {-3,6}, {-2,5}, {-1,3} }, q{ {2,u}, {5,-3}, {8,-2}, {9,1}, {7,4}, {6,4.5}, {4,3} };
	std::rotate( p.begin(), p.begin()+i, p.end() ); std::rotate( q.begin(), q.begin()+j, q.end() );
	size_t I=(7-i)%7, J=(7-j)%7;
	auto run=[&]( const auto& a, const auto& b ) { auto c=getClosestPoints(a,b); auto x=c.getIndexes(); check( x.first==I && x.second==J, "indexes" ); check( near( c.getMinDist()*c.getMinDist(), 4+u*u, 1e-6 ), "distance" ); check( And( nearpt(c.getPoints().first,p[I]), nearpt(c.getPoints().second,q[J]) ), "points" ); };
	if( o ) run( OPolyline(p), CPolyline(q) ); else run( CPolyline(p), CPolyline(q) );
}
CASE(query_any_index)
{
	int i=choose("i",7), w=choose("w",3); Num u=in("u",-0.5,0.5);
	Pts p{ {0,0}, {-4,-3}, {-6,1}, {-5,4}, {-3,6}, {-2,5}, {-1,3} }; std::rotate( p.begin(), p.begin()+i, p.end() );
	Point2d q= w==0 ? Point2d(2,u) : w==1 ? Point2d(-12,u) : Point2d(-5+u,-20); size_t N= w==0 ? 0 : w==1 ? 2 : 1, F= w==0 ? 3 : w==1 ? 0 : 4; // before the rotation
	if( w==0 ) chk( q, p, p, "any" ); else { N=(N+7-i)%7; F=(F+7-i)%7; check( findNearestPoint(q,p)==N && findFarthestPoint(q,p)==F, "indexes" ); auto b=findNearestFarthestPoint(q,p); check( b.first==N && b.second==F, "both" ); }
}
