#include "geom.hpp"
static const double pi=3.14159265358979323846;
static void regular( const CPolyline& a, Num r, int n, const std::string& w, Num cx=0, Num cy=0 )
{
	const auto& v=a.getPts(); check( (int)v.size()==n, w+"-count" ); if( (int)v.size()!=n ) return;
	std::vector<Fm> f; for( int i=0;i<n;i++ ) f.push_back( nearpt( v[i], cx+r*std::cos(2*pi*i/n), cy+r*std::sin(2*pi*i/n), 1e-6 ) );
	check( all(f), w+"-points" );
}
CASE(set_ret)
{
	int n=choose("n",TH(10,20))+3; Num r=in("r",0.05,50); CPolyline a; auto p=a.set(r,n); regular(a,r,n,"set"); check( near(p.first,2*r*std::sin(pi/n),1e-5), "side" ); check( near(p.second,r*std::cos(pi/n),1e-5), "inscribed" ); observe("d",p.first); observe("i",p.second);
}
CASE(set_types)
{
	int n=choose("n",5)+3; Num r=in("r",0.05,50); CPolyline a, b; a.set(r,(size_t)n); regular(a,r,n,"size_t"); b.set(r,(short)n); regular(b,r,n,"short"); CPolyline c(r,n); regular(c,r,n,"ctor"); CPolyline d; auto q=d.set(7,(long)n); regular(d,7,n,"int-radius"); check( near(q.second,7*std::cos(pi/n)), "int-inscribed" );
}
// replaces what was there, whose measures are forgotten
CASE(set_over)
{
	int n=choose("n",TH(4,9))+3; Num r=in("r",0.3,20), x=in("x",-9,9), y=2; CPolyline a( moved(shape(1),1,1) ); (void)a.length(); (void)a.area(); (void)a.centroid(); (void)a.isSimple(); (void)a.isConvex(); CPolyline ref(moved(shape(1),1,1)); (void)(a==ref);
	a.set(r,n); regular(a,r,n,"over"); check( near(a.length(),2*n*r*std::sin(pi/n),1e-4), "length" ); check( near(a.area(),r*r*(n*std::sin(2*pi/n)/2),1e-3), "area" ); check( a.isSimple() && a.isConvex(), "convex" ); check( nearpt(a.centroid(),0,0,1e-5), "centroid" ); check( a.nbSegs()==(size_t)n, "segs" );
	a.translate(x,y); regular(a,r,n,"moved",x,y); check( nearpt(a.centroid(),x,y,1e-5), "moved-centroid" ); check( near(a.length(),2*n*r*std::sin(pi/n),1e-4), "moved-length" );
}
CASE(small_polygons)
{
	Num r=in("r",0.5,20); CPolyline t(r,3), s(r,4), h(r,6); check( near(t.length()*t.length(),27*r*r,1e-3), "triangle" ); check( near(t.area()*t.area()*16,27*r*r*r*r,1e-2), "triangle-area" ); check( near(s.area(),2*r*r,1e-4), "square" ); check( near(h.length(),6*r,1e-4), "hexagon" );
	auto bb=s.getBB(); check( And( nearpt(bb.getPts().first,-r,-r,1e-5), nearpt(bb.getPts().second,r,r,1e-5) ), "square-box" );
}
CASE(set_invalid)
{
	Num r=in("r",0.05,50), b=in("b",-50,0); CPolyline a(shape(0)); auto h=a.getPts();
	for( int n=-1;n<3;n++ ) { check( throws([&]{ a.set(r,n); }), "few" ); check( throws([&]{ CPolyline q(r,n); }), "few-ctor" ); }
	check( throws([&]{ a.set(b,5); }) && throws([&]{ CPolyline q(b,3); }) && throws([&]{ a.set(Num(0),4); }), "radius" );
	check( a.getPts()==h, "unchanged" );
}
static void para( const CPolyline& a, const Point2d& p, const Point2d& q, const Point2d& r, const std::string& w )
{
	const auto& v=a.getPts(); check( v.size()==4, w+"-count" ); if( v.size()!=4 ) return;
	check( And( nearpt(v[0],p), And( nearpt(v[1],q), nearpt(v[2],r) ) ), w+"-given" ); check( nearpt( v[3], p.getX()+r.getX()-q.getX(), p.getY()+r.getY()-q.getY(), 1e-5 ), w+"-fourth" );
}
static Pts three( int k ) { auto P=[]( double x, double y ) { return Point2d(x,y); }; if( k==0 ) return { P(0,0), P(4,0), P(5,3) }; if( k==1 ) return { P(-2,1), P(-2,5), P(3,7) }; if( k==2 ) return { P(6,2), P(1,1), P(0,-4) }; return { P(1,2), P(4,6), P(-3,2) }; }
CASE(parallelogram)
{
	int k=choose("k",4), i=choose("i",3); Num x=in("x",-8,8), y=in("y",-8,8); Pts t=three(k); t[i]=Point2d(x,y); Num c=cross(t[0],t[1],t[2]); away(c,1); for( int j=0;j<3;j++ ) { auto& a=t[j]; auto& b=t[(j+1)%3]; if( j<2 ) { clearly(a.getX()-b.getX()); clearly(a.getY()-b.getY()); } }
	CPolyline a; a.setParallelogram(t[0],t[1],t[2]); para(a,t[0],t[1],t[2],"set"); obs("q",a.getPts()[3]);
}
CASE(parallelogram_over)
{
	int k=choose("k",4); Num x=in("x",-15,15), y=in("y",-15,15); Pts t=moved(three(k),x,y); CPolyline a(shape(3)); (void)a.length(); (void)a.area(); (void)a.isConvex(); a.setParallelogram(t[0],t[1],t[2]); para(a,t[0],t[1],t[2],"over");
	Num c=cross(t[0],t[1],t[2]); Num s= branch(lt(c,0))? -c : c; check( near(a.area(),s,1e-4), "area" ); check( a.isSimple() && a.isConvex(), "convex" ); check( nearpt( a.centroid(), (t[0].getX()+t[2].getX())/2, (t[0].getY()+t[2].getY())/2, 1e-4 ), "centroid" );
	Num l1=homog2d_sqrt(d2(t[0],t[1])), l2=homog2d_sqrt(d2(t[1],t[2])); check( near(a.length(),2*(l1+l2),1e-4), "length" );
}
CASE(parallelogram_scaled)
{
	int k=choose("k",4); Num s=in("s",0.05,20); Pts t=three(k); for( auto& p:t ) p=Point2d(p.getX()*s,p.getY()*s); CPolyline a; a.setParallelogram(t[0],t[1],t[2]); para(a,t[0],t[1],t[2],"scaled");
}
CASE(parallelogram_flat)
{
	Num t=in("t",-3,3); away(t,0.05); away(t-1,0.05); Point2d p(1,1), q(3,2), r=lerp(p,q,t); CPolyline a; check( throws([&]{ a.setParallelogram(p,q,r); }) || throws([&]{ a.setParallelogram(p,r,q); }) || a.size()==0, "aligned" );
}
// far from the origin, at other scales
CASE(parallelogram_places)
{
	Place P=placeOf( 1+choose("place",3) ); int k=choose("k",4); Num x=in("x",-9,9), y=in("y",-9,9); Pts t=moved(three(k),x,y), g; for( auto& z:t ) g.push_back( inPlace(P,z.getX(),z.getY()) ); CPolyline a; a.setParallelogram(g[0],g[1],g[2]); Pts v; for( auto& z:a.getPts() ) v.push_back( fromPlace(P,z) ); check( v.size()==4, "count" ); if( v.size()!=4 ) return;
	check( all( { nearpt(v[0],t[0],1e-5), nearpt(v[1],t[1],1e-5), nearpt(v[2],t[2],1e-5), nearpt( v[3], t[0].getX()+t[2].getX()-t[1].getX(), t[0].getY()+t[2].getY()-t[1].getY(), 1e-5 ) } ), "corners" );
}
