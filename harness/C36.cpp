#include "geom.hpp"
// the same cycle of points, any start, any direction
static bool cyc( const CPolyline& pl, const Pts& e, const std::string& w, double tol=1e-5 )
{
	const auto& v=pl.getPts(); size_t n=e.size(); check( v.size()==n, w+"-count" ); if( v.size()!=n ) return false;
	std::vector<Fm> g; for( size_t r=0;r<n;r++ ) for( int s:{1,-1} ) { std::vector<Fm> f; for( size_t i=0;i<n;i++ ) f.push_back( nearpt( v[i], e[ (r+n+s*int(i))%n ], tol ) ); g.push_back( all(f) ); }
	check( any(g), w+"-points" ); return true;
}
static Pts turned( Pts p, int r, bool rev ) { std::rotate( p.begin(), p.begin()+r%p.size(), p.end() ); if( rev ) std::reverse( p.begin(), p.end() ); return p; }
// counterclockwise polygon whose sides have rational lengths: offset of each side by d outside (margins of the vertices by exact algebra)
static Pts offset( const Pts& p, Num d )
{
	size_t n=p.size(); Pts e;
	auto dir=[&]( size_t i, Num& x, Num& y ) { auto& a=p[i]; auto& b=p[(i+1)%n]; x=b.getX()-a.getX(); y=b.getY()-a.getY(); Num l=homog2d_sqrt(x*x+y*y); x=x/l; y=y/l; };
	for( size_t i=0;i<n;i++ )
	{
		Num ux,uy,vx,vy; dir( (i+n-1)%n, ux,uy ); dir( i, vx,vy );
		// outside normals (uy,-ux) and (vy,-vx): q = p + d*(nu+nv)/(1+nu.nv)
		Num k=1+ux*vx+uy*vy; e.push_back( Point2d( p[i].getX()+d*(uy+vy)/k, p[i].getY()-d*(ux+vx)/k ) );
	}
	return e;
}
static Pts model( int k )
{
	auto P=[]( double x, double y ) { return Point2d(x,y); };
	if( k==0 ) return { P(0,0), P(4,0), P(4,3) };
	if( k==1 ) return { P(0,0), P(8,0), P(8,6), P(0,6) };
	if( k==2 ) return { P(0,0), P(9,0), P(9,3), P(4,3), P(4,8), P(0,8) };
	if( k==3 ) return { P(0,0), P(3,4), P(-1,7), P(-4,3) };
	if( k==4 ) return { P(0,0), P(6,8), P(0,16), P(-3,8) };
	return { P(0,0), P(12,0), P(12,9), P(6,4.5), P(0,9) };
}
CASE(outside)
{
	int k=choose("k",6), r=choose("r",TH(2,6)), v=choose("rev",2); Num d=in("d",0.01,8), x=TH(Num(1),in("x",-20,20)); Pts p=moved(model(k),x,2); CPolyline a(turned(p,r,v)); cyc( a.getOffsetPoly(d), offset(p,d), "outside" );
}
CASE(inside)
{
	int k=choose("k",6), r=choose("r",TH(2,6)), v=choose("rev",2); Num d=in("d",0.01,0.9); Pts p=model(k); CPolyline a(turned(p,r,v)); cyc( a.getOffsetPoly(-d), offset(p,-d), "inside" );
}
CASE(moved_source)
{
	int k=choose("k",3), s=choose("s",2); Num x=in("x",-20,20), y=in("y",-20,20); Pts p=moved(model(k),x,y); CPolyline a(p); Num d= s? 0.5 : -0.5; cyc( a.getOffsetPoly(d), offset(p,d), "moved" );
	check( a==CPolyline(p), "source" );
}
// one symbolic vertex: each side parallel and at the distance
CASE(vertex)
{
	int s=choose("s",2), v=choose("rev",2); Num y=in("y",3,8); Pts p{ {0,0}, {6,0}, {6,y}, {0,3} }; if( v ) std::reverse( p.begin(), p.end() ); Num d= s? 1.5 : -0.5; CPolyline a(p), b=a.getOffsetPoly(d); away(y-3,0.1); Pts e= v? offset( Pts{ p[3],p[2],p[1],p[0] }, d ) : offset(p,d); cyc( b, e, "offset" );
}
CASE(aligned_vertex)
{
	int k=choose("k",4), s=choose("s",2); Num t=in("t",0.1,0.9); Pts p=model(1), q(p); q.insert( q.begin()+k+1, lerp(p[k],p[(k+1)%4],t) ); Num d= s? 1.5 : -0.5; CPolyline a(q); cyc( a.getOffsetPoly(d), offset(p,d), "offset" );
}
// split of the angles: the corner is cut at the distance, orthogonally to the bisector
CASE(split)
{
	int k=choose("k",4), r=choose("r",2), v=choose("rev",2); Num d=in("d",0.05,5); Pts p=model(k), o=offset(p,d), e; size_t n=p.size(); OffsetPolyParams pa; pa._angleSplit=true; CPolyline a(turned(p,r,v)); CPolyline b=a.getOffsetPoly(d,pa);
	for( size_t i=0;i<n;i++ )
	{
		if( branch( lt( cross(p[(i+n-1)%n],p[i],p[(i+1)%n]), 0 ) ) ) { e.push_back(o[i]); continue; }
		Num bx=o[i].getX()-p[i].getX(), by=o[i].getY()-p[i].getY(), l2=bx*bx+by*by, l=homog2d_sqrt(l2); // distance from the vertex to the corner is l, cut at d
		for( int s:{-1,1} ) { size_t j= s<0? (i+n-1)%n : (i+1)%n; Num ux=p[j].getX()-p[i].getX(), uy=p[j].getY()-p[i].getY(), ul=homog2d_sqrt(ux*ux+uy*uy); ux=ux/ul; uy=uy/ul;
			// along the offset side, from the corner: (l-d) = -t * (u.b/l)
			Num c=(ux*bx+uy*by)/l, t=-(l-d)/c; e.push_back( Point2d( o[i].getX()+t*ux, o[i].getY()+t*uy ) ); }
	}
	cyc( b, e, "split", 1e-4 );
	CPolyline c=a.getOffsetPoly(-d*0.1,pa); cyc( c, offset(p,-d*0.1), "split-inside" );
}
CASE(invalid)
{
	Num d=in("d",0.01,5); CPolyline e, two( Pts{ {0,0}, {1,2} } ), x( Pts{ {0,0}, {4,4}, {4,0}, {0,4} } ), ok(model(0)); OPolyline o(model(1)); err::printWarnings()=false;
	check( e.getOffsetPoly(d).size()==0 && two.getOffsetPoly(d).size()==0 && x.getOffsetPoly(d).size()==0 && o.getOffsetPoly(d).size()==0 && ok.getOffsetPoly(Num(0)).size()==0, "empty" ); check( e.getOffsetPoly(-d).size()==0 && x.getOffsetPoly(-d).size()==0, "empty-inside" );
}
// ---- bisector lines
// l goes through b and has the rays to a and c on opposite sides, at the same angle
static Fm bisects( const Line2d& l, const Point2d& a, const Point2d& b, const Point2d& c, double tol=1e-5 )
{
	Num f=evalLine(l,a), g=evalLine(l,c), da=d2(a,b), dc=d2(c,b); return And( near(evalLine(l,b),0,tol), near( f*f*dc, g*g*da, tol*100 ), le( f*g, tol ) );
}
template<class P> void bisectorCase( const Pts& p, bool closed )
{
	P a(p); auto v=a.getBisectorLines(), w=getBisectorLines(a); size_t n=p.size(), m= closed? n : n-2; check( v.size()==m && w.size()==m, "count" ); if( v.size()!=m || w.size()!=m ) return;
	for( size_t i=0;i<m;i++ ) { size_t j= closed? i : i+1; check( bisects( v[i], p[(j+n-1)%n], p[j], p[(j+1)%n] ), "bisector" ); check( bisects( w[i], p[(j+n-1)%n], p[j], p[(j+1)%n] ), "bisector-free" ); }
}
CASE(bisector_moved) { int k=choose("k",6), v=choose("rev",2), c=choose("closed",2); Num x=in("x",-9,9), y=in("y",-9,9); Pts p=turned(moved(model(k),x,y),0,v); if( c ) bisectorCase<CPolyline>(p,true); else bisectorCase<OPolyline>(p,false); }
CASE(bisector_scaled) { int k=choose("k",6); Num s=in("s",0.1,5); Pts p=model(k); for( auto& q:p ) q=Point2d(q.getX()*s,q.getY()*s); bisectorCase<CPolyline>(p,true); bisectorCase<OPolyline>(p,false); }
CASE(bisector_few) { Num x=in("x",1,9); CPolyline a( Pts{ {0,0}, {x,1} } ), e; OPolyline o( Pts{ {0,0}, {x,1} } ); check( throws([&]{ a.getBisectorLines(); }) && throws([&]{ getBisectorLines(o); }) && throws([&]{ e.getBisectorLines(); }), "few" ); }
// ---- reduction
template<class P> void reduced( const Pts& p, const Pts& e, const std::string& w )
{ P a(p); a.minimize(); if( a.isClosed() ) cyc( CPolyline(a), e, w ); else { const auto& v=static_cast<const P&>(a).getPts(); check( v.size()==e.size(), w+"-count" ); if( v.size()==e.size() ) { std::vector<Fm> f; for( size_t i=0;i<e.size();i++ ) f.push_back( nearpt(v[i],e[i]) ); check( all(f), w+"-points" ); } } }
// points added on the sides are removed, and only these
CASE(minimize)
{
	int k=choose("k",5), i=choose("side",3), c=choose("closed",2), r=choose("r",2); Num t=in("t",0.1,0.9), s=in("s",0.1,0.9); assume( lt(t+0.05,s) ); Pts p=model(k), q(p); size_t n=p.size(); q.insert( q.begin()+i+1, lerp(p[i],p[(i+1)%n],s) ); q.insert( q.begin()+i+1, lerp(p[i],p[(i+1)%n],t) );
	if( r ) { std::reverse( q.begin(), q.end() ); std::reverse( p.begin(), p.end() ); }
	if( c ) reduced<CPolyline>( q, p, "closed" ); else { if( !r && i==2 && n==3 ) return; if( r && i==2 && n==3 ) return; reduced<OPolyline>( q, p, "open" ); }
}
CASE(minimize_keeps)
{
	int c=choose("closed",2); Num u=in("u",-3,3); away(u,0.05); Pts p{ {0,0}, {2,u}, {4,0}, {4,5}, {0,5} }; if( c ) reduced<CPolyline>( p, p, "closed" ); else reduced<OPolyline>( p, p, "open" );
}
// going back on the same line is not an aligned point
CASE(minimize_back) { int c=choose("closed",2); Num t=in("t",1.2,3); Pts p{ {0,0}, {2*t,t}, {2,1}, {3,7} }; if( c ) reduced<CPolyline>( p, p, "closed" ); else reduced<OPolyline>( p, p, "open" ); }
// nearly aligned points, in the four directions
CASE(minimize_nearly)
{
	int d=choose("d",4); Num u=in("u",-1e-4,1e-4); Pts p{ {0,0}, {u,3}, {0,6}, {4,8} }, e{ {0,0}, {0,6}, {4,8} }; for( auto v:{&p,&e} ) for( auto& q:*v ) for( int i=0;i<d;i++ ) q=Point2d(-q.getY(),q.getX()); reduced<OPolyline>( p, e, "open" ); reduced<CPolyline>( p, e, "closed" );
}
// ends of an open polyline stay, caches follow, length is kept
CASE(minimize_measures)
{
	int c=choose("closed",2); Num t=in("t",0.1,0.9), h=in("h",1,5); Pts p{ {0,0}, {4*t,0}, {4,0}, {4,h}, {0,h} }; if( c ) { CPolyline a(p); Num l=a.length(), s=a.area(); a.minimize(); check( a.size()==4, "size" ); check( And( near(l,8+2*h), near(s,4*h) ), "before" ); check( And( near(a.length(),8+2*h), near(a.area(),4*h) ), "after" ); check( a.isSimple() && a.isConvex(), "convex" ); }
	else { OPolyline a(p); Num l=a.length(); a.minimize(); check( a.size()==4, "size" ); check( And( near(l,8+h), near(a.length(),8+h) ), "length" ); }
}
CASE(minimize_few) { Num x=in("x",1,9); CPolyline a( Pts{ {0,0}, {x,1} } ), e; OPolyline o( Pts{ {0,0}, {x,1} } ), f; a.minimize(); o.minimize(); check( a.size()==2 && o.size()==2, "two" ); f.minimize(); e.minimize(); check( f.size()==0 && e.size()==0, "none" ); }
// many vertices
CASE(big_offset)
{
	int r=choose("r",TH(2,8)), v=choose("rev",2), s=choose("s",2), pl=choose("place",TH(2,4)); Num d=in("d",0.01,TH(3,9)); auto z=placeOf(pl); Pts p=bigShape(0); Num e= s? -d*0.05 : d; Pts q=offset(p,e), f; for( auto& t:q ) f.push_back( Point2d(t.getX()*z.s+z.x,t.getY()*z.s+z.y) );
	CPolyline a(turned(placed(p,pl),3*r,v)); cyc( a.getOffsetPoly(e*z.s), f, "big-offset", 1e-4 );
}
CASE(big_bisectors) { int k=choose("k",3), c=choose("closed",2); Num x=in("x",-900,900); Pts p=moved(bigShape(k),x,70); if( c ) bisectorCase<CPolyline>(p,true); else bisectorCase<OPolyline>(p,false); }
CASE(big_minimize)
{
	int k=choose("k",3), i=choose("side",TH(4,10)), c=choose("closed",2); Num t=in("t",0.1,0.9); Pts p=bigShape(k), q(p); size_t n=p.size(); i=TH(3,1)*i; if( i+1>=(int)n ) return; q.insert( q.begin()+i+1, lerp(p[i],p[i+1],t) ); if( c ) q.push_back( lerp(p[n-1],p[0],t) ); int j=(i+4)%(n-1); size_t at=j+1+(j>i?1:0); q.insert( q.begin()+at, lerp(p[j],p[j+1],0.5) );
	if( c ) reduced<CPolyline>( q, p, "big-closed" ); else reduced<OPolyline>( q, p, "big-open" );
}
