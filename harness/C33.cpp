#include "geom.hpp"
// h is a convex polygon (no right nor left turn only), of points of p, holding all points of p
static void isHull( const CPolyline& hull, const Pts& p, const std::string& w, double tol=1e-9 )
{
	const auto& h=hull.getPts(); size_t n=h.size();
	std::vector<Fm> mem; for( auto& q:h ) { std::vector<Fm> g; for( auto& z:p ) g.push_back( And( eq(q.getX(),z.getX()), eq(q.getY(),z.getY()) ) ); mem.push_back( any(g) ); } check( all(mem), w+"-members" );
	check( n>=3, w+"-size" ); if( n<3 ) return;
	// twice the area gives the direction
	Num a=0; for( size_t i=0;i<n;i++ ) a=a+h[i].getX()*h[(i+1)%n].getY()-h[i].getY()*h[(i+1)%n].getX();
	Num s= branch( gt(a,0) ) ? 1 : -1; std::vector<Fm> f, g, u;
	for( size_t i=0;i<n;i++ )
	{
		f.push_back( ge( s*cross(h[i],h[(i+1)%n],h[(i+2)%n]), -tol ) );
		for( auto& z:p ) g.push_back( ge( s*cross(h[i],h[(i+1)%n],z), -tol ) );
		for( size_t j=0;j<i;j++ ) u.push_back( Not( And( eq(h[i].getX(),h[j].getX()), eq(h[i].getY(),h[j].getY()) ) ) );
	}
	check( all(f), w+"-convex" ); check( all(g), w+"-holds" ); check( all(u), w+"-distinct" );
}
static Pts bpts( int n ) { Pts p{ {0,0}, {4,-1}, {5,3}, {2,4.5}, {-1.5,2}, {2,1.5} }; p.resize(n); return p; }
static void apart( const Pts& p, size_t k ) { for( size_t i=0;i<p.size();i++ ) if( i!=k ) assume( Or( absge(p[i].getX()-p[k].getX(),1e-3), absge(p[i].getY()-p[k].getY(),1e-3) ) ); }
// one symbolic point anywhere, not aligned with two others
static void general( const Pts& p, size_t k, double m=1e-3 ) { for( size_t i=0;i<p.size();i++ ) for( size_t j=i+1;j<p.size();j++ ) if( i!=k && j!=k ) away( cross(p[i],p[j],p[k]), m ); }
CASE(points)
{
	int n=4+choose("n",TH(2,3)), k=choose("k",2); if( k ) k=n-2; Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); p[k]=Point2d(x,y); general(p,k);
	isHull( convexHull(p), p, "vector" );
}
CASE(polylines)
{
	int t=choose("t",4), k=choose("k",4); Num x=in("x",-9,9), y=in("y",-9,9); Pts p{ {0,0}, {3,1}, {4,4}, {1,3} }; p[k]=Point2d(x,y); general(p,k);
	if( t==0 ) isHull( convexHull(CPolyline(p)), p, "closed" ); if( t==1 ) isHull( convexHull(OPolyline(p)), p, "open" ); if( t==2 ) isHull( CPolyline(p).convexHull(), p, "closed-member" ); if( t==3 ) isHull( OPolyline(p).convexHull(), p, "open-member" );
}
// the order of the points does not matter
CASE(order)
{
	int r=choose("r",TH(6,12)); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(5); p[2]=Point2d(x,y); general(p,2); CPolyline a=convexHull(p); Pts q(p); unsigned s=r*7919+13; for( size_t i=q.size()-1;i>0;i-- ) { s=s*1103515245u+12345u; std::swap( q[i], q[(s>>16)%(i+1)] ); }
	CPolyline b=convexHull(q); isHull( b, p, "shuffled" ); check( a.size()==b.size(), "size" ); check( a==b, "same" );
}
// convex position: every point is a vertex
CASE(all_vertices)
{
	Num u=in("u",0.1,1.5), v=in("v",0.1,1.5); int r=choose("r",5); Pts p{ {0,0}, {4,-u}, {6,2}, {4+v,5}, {-1,3} }; Pts q(p); std::rotate( q.begin(), q.begin()+r, q.end() ); std::swap( q[1], q[3] ); CPolyline h=convexHull(q); check( h.size()==5, "size" ); check( h==CPolyline(p), "hull" );
}
// aligned points, on the first, last or another side, or on a ray from the lowest point
CASE(aligned)
{
	int r=choose("r",6), k=choose("k",5); Num t=in("t",0.05,0.95); Pts p{ {0,0}, {4,0}, {5,4}, {1,5} };
	if( k<4 ) p.push_back( lerp( p[k], p[(k+1)%4], t ) ); else p.push_back( lerp( p[0], p[2], t ) ); std::rotate( p.begin(), p.begin()+r%5, p.end() ); if( r==5 ) std::reverse( p.begin(), p.end() );
	isHull( convexHull(p), p, "aligned", 1e-6 );
}
CASE(aligned2)
{
	int r=choose("r",6), k=choose("k",4); Num t=in("t",0.05,0.95), s=in("s",0.05,0.95); away(t-s,1e-3); Pts p{ {0,0}, {4,0}, {0,3} }; Point2d a=p[k%3], b=p[(k+1)%3]; p.push_back( lerp(a,b,t) ); p.push_back( lerp(a,b,s) ); if( k==3 ) p[2]=Point2d(1,3);
	std::rotate( p.begin(), p.begin()+r%5, p.end() ); if( r==5 ) std::reverse( p.begin(), p.end() ); isHull( convexHull(p), p, "aligned", 1e-6 );
}
CASE(grid)
{
	int r=choose("r",9); Num d=in("d",0.5,3); Pts p; for( int i=0;i<9;i++ ) p.push_back( Point2d( d*(i%3), d*(i/3)*0.5 ) ); std::rotate( p.begin(), p.begin()+r, p.end() ); if( r&1 ) std::swap( p[0], p[7] ); isHull( convexHull(p), p, "grid" );
}
CASE(duplicates)
{
	int n=4+choose("n",2), k=choose("k",n), w=choose("w",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=bpts(n); p[1]=Point2d(x,y); general(p,1); Point2d d=p[k]; if( w ) p.push_back(d); else p.insert( p.begin(), d ); isHull( convexHull(p), p, "duplicate" );
}
CASE(duplicates_twice)
{
	int k=choose("k",4); Num x=in("x",-9,9); Pts p{ {0,0}, {4,0}, {x,5}, {1,1} }; Pts q(p); q.push_back(p[k]); q.push_back(p[k]); q.push_back(p[0]); away( cross(q[0],q[3],q[2]), 1e-3 ); away( cross(q[1],q[3],q[2]), 1e-3 ); isHull( convexHull(q), p, "duplicates" );
}
CASE(few)
{
	Num x=in("x",-9,9), y=in("y",-9,9); Pts p{ {0,0}, {x,y}, {3,1} }; apart(p,1); CPolyline h=convexHull(p); check( h==CPolyline(p), "three" ); p.pop_back(); check( convexHull(p)==CPolyline(p), "two" ); check( convexHull(CPolyline()).size()==0 && OPolyline().convexHull().size()==0, "none" );
}
// the source is unchanged, the hull of the hull is the hull, it is convex, holds the shape and its own area is at least that of the polygon
CASE(properties)
{
	Num u=in("u",0.5,3.5); Pts p{ {0,0}, {4,0}, {2,u}, {4,4}, {0,4} }; away(u-2,1e-3); CPolyline c(p); c.area(); CPolyline h=c.convexHull(); check( h.isConvex() && h.isSimple(), "convex" ); check( h.convexHull()==h, "idempotent" ); check( ge( h.area(), c.area()-1e-9 ), "area" ); check( near(h.area(),16,1e-6), "value" );
	const auto& q=static_cast<const CPolyline&>(c).getPts(); std::vector<Fm> f; for( int i=0;i<5;i++ ) f.push_back( nearpt(q[i],p[i]) ); check( all(f), "source" );
}
// homothety / translation
CASE(moved_hull) { Num u=in("u",-9,9), v=in("v",-9,9); int n=4+choose("n",3); Pts p=bpts(n); CPolyline a=convexHull(p); a.translate(u,v); CPolyline b=convexHull( moved(p,u,v) ); check( a==b, "moved" ); }
CASE(big)
{
	int k=choose("k",3), w=choose("place",4), j=choose("j",TH(2,4)), t=choose("t",2); Num u=in("u",-9,9); Pts b=bigShape(k); j=j*3+1; b[j]= t? Point2d(u,0.37*u+2.13) : Point2d(3.17-0.21*u,u); general(b,j); Pts p=placed(b,w); double s=placeOf(w).s; isHull( convexHull(p), p, "hull", 1e-9*s*s );
}
// long chains given up at once: points on an arc, then one or two farther ones hiding several of them
CASE(deep)
{
	int w=choose("place",4), o=choose("o",4), m=choose("m",3); Num u=in("u",1.05,4), v=in("v",1.05,4); Pts p{ {0,0} }; double s=placeOf(w).s;
	for( int i=0;i<9;i++ ) { double a=0.1+0.14*i; p.push_back( Point2d( 10*std::cos(2*a-M_PI/2)+0.013*i, 10+10*std::sin(2*a-M_PI/2) ) ); }
	// beyond the last point, then beyond the first one
	if( m!=1 ) p.push_back( Point2d( u*5, u*14.3 ) ); if( m!=0 ) p.push_back( Point2d( v*13, v*2.17 ) ); p.push_back( Point2d(-3,11) );
	general( p, 10, 0.05 ); if( m==2 ) general( p, 11, 0.05 );
	Pts q=placed(p,w); if( o&1 ) std::reverse( q.begin(), q.end() ); if( o&2 ) std::rotate( q.begin(), q.begin()+5, q.end() );
	isHull( convexHull(q), q, "deep", 1e-9*s*s );
}
