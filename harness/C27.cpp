#include "geom.hpp"
// oracle: proper crossings of non adjacent sides (margins in crossing)
static bool simple( const Pts& p )
{
	Pts e; size_t n=p.size(); auto s=sidesOf(p,true);
	for( size_t i=0;i<n;i++ ) for( size_t j=i+2;j<n;j++ ) if( !(i==0&&j==n-1) ) crossing( s[i].a,s[i].b,s[j].a,s[j].b,e );
	return e.empty();
}
// all turns in the same direction (simple ones), margin
static bool convex( const Pts& p )
{
	int q=0; bool r=true;
	for( size_t i=0;i<p.size();i++ )
	{ Num c=cross( p[i],p[(i+1)%p.size()],p[(i+2)%p.size()] ); away(c,1e-2); int t=branch( gt(c,0) )?1:-1; if( q==0 ) q=t; else if( t!=q ) r=false; }
	return r;
}
static void both( const Pts& p, const std::string& w )
{
	bool s=simple(p), v= s && convex(p);
	CPolyline c(p); check( c.isSimple()==s, w+"-simple" ); check( c.isConvex()==v, w+"-convex" ); check( isSimple(c)==s, w+"-simple-free" ); check( isConvex(c)==v, w+"-convex-free" );
	OPolyline o(p); check( !o.isSimple() && !o.isConvex(), w+"-open" );
}
static Pts turned( Pts p, int r, bool rev ) { std::rotate( p.begin(), p.begin()+r%p.size(), p.end() ); if( rev ) std::reverse( p.begin(), p.end() ); return p; }
static const double L[8][4]={{1,0.3,2,1.8},{0.2,1,3.1,0.5},{1,-1,2,2.2},{1,1,0.7,0.3},{1,0,0,4.3},{0,1,5.2,0},{1,0,0,1.7},{0,1,1.3,0}};
CASE(quad)
{
	int r=choose("r",TH(3,4)), v=choose("rev",2), k=choose("k",8); Num t=in("t",-7,7); Point2d q(L[k][2]+t*L[k][0],L[k][3]+t*L[k][1]);
	Pts p{ {0,0}, {4,0.5}, q, {-0.5,3} }; for( int i:{1,3} ) { clearly( q.getX()-p[i].getX() ); clearly( q.getY()-p[i].getY() ); } both( turned(p,r,v), "q" );
}
#ifdef THOROUGH
CASE(quad_plane)
{
	int v=choose("rev",2); Num x=in("x",-6,8), y=in("y",-6,8); Point2d q(x,y);
	Pts p{ {0,0}, {4,0.5}, q, {-0.5,3} }; for( int i:{1,3} ) { clearly( q.getX()-p[i].getX() ); clearly( q.getY()-p[i].getY() ); } both( turned(p,0,v), "q" );
}
#endif
CASE(pentagon)
{
	int r=choose("r",TH(2,5)), v=choose("rev",2), k=choose("k",TH(3,8)); Num t=in("t",-6,6);
	Pts p{ {0,0}, {4,-1}, {5,3}, Point2d(L[k][2]+t*L[k][0],L[k][3]+t*L[k][1]), {-1,4} }; both( turned(p,r,v), "p" );
}
CASE(hexagon)
{
	int r=choose("r",TH(2,6)), v=choose("rev",2), k=choose("k",TH(2,8)); Num t=in("t",-6,6);
	Pts p{ {0,0}, {4,-1}, {6,2}, Point2d(L[k][2]+t*L[k][0],L[k][3]+t*L[k][1]), {2,6}, {-1,4} }; both( turned(p,r,v), "h" );
}
CASE(triangle)
{
	int r=choose("r",3); Num x=in("x",-5,5), y=in("y",-5,5); Pts p{ {0,0}, {4,1}, {x,y} }; away( cross(p[0],p[1],p[2]), 0.02 );
	for( int i=0;i<2;i++ ) assume( ge( d2(p[i],p[2]),0.01 ) ); CPolyline c( turned(p,r,false) );
	check( c.isSimple(), "simple" ); check( c.isConvex(), "convex" );
}
CASE(small)
{
	Num x=in("x",1,5); CPolyline e, c( Pts{ {0,0}, {x,1} } ); OPolyline o( Pts{ {0,0}, {x,1} } ), oe;
	check( !e.isSimple() && !e.isConvex() && !c.isSimple() && !c.isConvex() && !o.isSimple() && !o.isConvex() && !oe.isSimple() && !oe.isConvex(), "not-polygons" );
}
// a vertex on a side: same answer for every start and direction
CASE(aligned)
{
	int r=choose("r",6), v=choose("rev",2), w=choose("w",2); Num u=in("u",0.3,3.7);
	Pts p{ {0,0}, {u,0}, {4,0}, {4,3}, {4-u,3}, {0,3} }; if( w ) p[4]=Point2d(2,1+0.3*u);
	if( w ) away( 0.3*u-0.9,0.2 );
	CPolyline c( turned(p,r,v) ); check( c.isSimple(), "simple" ); check( c.isConvex()==!w, "convex" );
}
// touching: a vertex on a non adjacent side is a meeting of sides
CASE(touching)
{
	int r=choose("r",5), v=choose("rev",2); Num u=in("u",0.3,3.7); Pts p{ {0,0}, {4,0}, {4,3}, {u,0}, {0,3} };
	CPolyline c( turned(p,r,v) ); check( !c.isSimple(), "touch" ); check( !c.isConvex(), "touch-convex" );
}
CASE(star)
{
	Num s=in("s",0.5,4); Pts p; for( int i=0;i<5;i++ ) { double a=4*M_PI*i/5; p.push_back( Point2d( s*std::cos(a), s*std::sin(a) ) ); }
	CPolyline c(p); check( !c.isSimple() && !c.isConvex(), "pentagram" );
	Pts q; for( int i=0;i<5;i++ ) { double a=2*M_PI*i/5; q.push_back( Point2d( s*std::cos(a), s*std::sin(a) ) ); }
	CPolyline d(q); check( d.isSimple() && d.isConvex(), "pentagon" );
}
// not stale after a change
CASE(history)
{
	int w=choose("w",5); Num t=in("t",-1,6); away(t,0.05); away(t-1,0.05); away( t-12./7,0.05 ); away(t-4,0.05); away(t-3,0.05);
	Pts p{ {0,0}, {4,0}, {4,3}, {0,3} }, n{ {0,0}, {4,0}, {t,t}, {0,3} };
	CPolyline c(p); (void)c.isSimple(); (void)c.isConvex(); (void)c.area();
	if( w==0 ) c.set(n); if( w==1 ) c=CPolyline(n); if( w==2 ) c.getPts()[2]=n[2]; if( w==3 ) { c.clear(); c.set(n); } if( w==4 ) { CPolyline d(n); (void)d.isConvex(); std::swap(c,d); }
	bool s=simple(n), v=s&&convex(n); check( c.isSimple()==s, "simple" ); check( c.isConvex()==v, "convex" );
}
// comparing (which reorders) and moving keep the answers
CASE(after_compare)
{
	int w=choose("w",3), k=choose("k",4); Num dx=in("dx",-5,5); Pts p=shape(k); CPolyline c(p), d(moved(p,dx,1)); bool s=c.isSimple(), v=c.isConvex();
	if( w==0 ) { (void)(c==d); } if( w==1 ) { c.translate(dx,0); (void)(d==c); } if( w==2 ) c.rotate(Rotate::CW,Point2d(dx,1));
	check( s && c.isSimple(), "simple" ); check( c.isConvex()==v && v==(k==0), "convex" ); check( d.isSimple() && d.isConvex()==v, "other" );
}
// more vertices, other sizes and places
CASE(big)
{
	int k=choose("k",3), w=TH(1+choose("place",2),choose("place",4)), r=TH(k,choose("r",4)), v=choose("rev",2), d=TH(w-1,choose("dir",2)); Num t=in("t",-4,4); Pts b=bigShape(k); size_t j=r*3+1;
	b[j]=Point2d( b[j].getX()+(d?t:Num(0)), b[j].getY()+(d?0.3*t:t) ); bool s=simple(b), x= s && convex(b); Pts p=placed( turned(b,r+v*4,v), w );
	CPolyline c(p); check( c.isSimple()==s, "simple" ); check( c.isConvex()==x, "convex" );
}
