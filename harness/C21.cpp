#include "geom.hpp"
struct B4 { Num x0,y0,x1,y1; FRect rect() const { return FRect(Point2d(x0,y0),Point2d(x1,y1)); } };
static Num mn( const Num& a, const Num& b ) { return branch( lt(a,b) ) ? a : b; }
static Num mx( const Num& a, const Num& b ) { return branch( lt(a,b) ) ? b : a; }
static void aligned( const Num& a, const Num& b ) { clearly(a-b,1e-3); }
static bool within( const B4& r, const Num& x, const Num& y )
{ return branch( And( gt(x,r.x0), lt(x,r.x1), gt(y,r.y0), lt(y,r.y1) ) ); }
static void verdict( const B4& a, const B4& b )
{
	for( const Num& u:{a.x0,a.x1} ) for( const Num& v:{b.x0,b.x1} ) aligned(u,v);
	for( const Num& u:{a.y0,a.y1} ) for( const Num& v:{b.y0,b.y1} ) aligned(u,v);
	FRect A=a.rect(), B=b.rect();
	Num x0=mx(a.x0,b.x0), x1=mn(a.x1,b.x1), y0=mx(a.y0,b.y0), y1=mn(a.y1,b.y1);
	bool e=branch( And( lt(x0,x1), lt(y0,y1) ) );
	for( int w=0;w<4;w++ )
	{
		auto i= w==0? A.intersectArea(B) : w==1? B.intersectArea(A) : w==2? (A&B) : intersectArea(A,B); std::string n="intersection"+std::to_string(w);
		check( i()==e, n );
		if( e && i() ) { auto p=i.get().getPts(); check( And( nearpt(p.first,x0,y0), nearpt(p.second,x1,y1) ), n+"-rect" ); }
		if( !e && !i() ) check( throws( [&]{ i.get(); } ), n+"-none" );
	}
	// a shared corner only: the union is not a polygon
	if( branch( Or( And( eq(x0,x1), le(y1,y0) ), And( eq(y0,y1), le(x1,x0) ) ) ) && branch( And( eq(x0,x1), eq(y0,y1) ) ) ) return;
	bool touch= e || branch( And( le(x0,x1), le(y0,y1) ) );
	auto u=A.unionArea(B), v=B|A, f=unionArea(A,B);
	for( auto* p:{&u,&v,&f} ) 
	{
		std::string n= p==&u? "union" : p==&v? "union-back" : "union-free";
		if( !touch ) { check( p->size()==0, n+"-empty" ); continue; }
		check( p->size()>=4, n+"-size" ); if( p->size()<4 ) continue;
		check( p->isSimple(), n+"-simple" );
		Num I= e? (x1-x0)*(y1-y0) : Num(0), S=(a.x1-a.x0)*(a.y1-a.y0)+(b.x1-b.x0)*(b.y1-b.y0)-I;
		check( near(p->area(),S,1e-4), n+"-area" );
	}
	if( !touch ) return;
	Num I= e? (x1-x0)*(y1-y0) : Num(0), S=(a.x1-a.x0)*(a.y1-a.y0)+(b.x1-b.x0)*(b.y1-b.y0)-I;
	Num q=IoU(A,B), r=IoU(B,A);
	check( And( near(q*S,I,1e-4), near(r*S,I,1e-4), ge(q,0), le(q,1) ), "iou" );
	// the cells of the grid given by the sides are in the union as they should
	Num xs[4]={a.x0,a.x1,b.x0,b.x1}, ys[4]={a.y0,a.y1,b.y0,b.y1};
	for( auto* t:{xs,ys} ) for( int i=0;i<3;i++ ) for( int j=0;j<3-i;j++ ) if( branch( lt(t[j+1],t[j]) ) ) std::swap(t[j],t[j+1]);
	auto pts=u.getPts(); auto sd=sidesOf(pts,true); std::vector<Fm> g;
	for( auto& s:sd ) g.push_back( Or( eq(s.a.getX()-s.b.getX(),0), eq(s.a.getY()-s.b.getY(),0) ) );
	check( all(g), "union-sides" );
	// no vertex in the middle of a side
	std::vector<Fm> corner; const size_t n=sd.size();
	for( size_t k=0; k<n; k++ ) { auto& s=sd[k]; auto& z=sd[(k+1)%n]; Num h=(s.b.getX()-s.a.getX())*(z.b.getY()-z.a.getY())-(s.b.getY()-s.a.getY())*(z.b.getX()-z.a.getX()); corner.push_back( Or( gt(h,1e-12), lt(h,-1e-12) ) ); }
	check( all(corner), "union-corners" );
	bool ok=true;
	for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ )
	{
		if( branch( Or( eq(xs[i],xs[i+1]), eq(ys[j],ys[j+1]) ) ) ) continue;
		Num cx=(xs[i]+xs[i+1])/2, cy=(ys[j]+ys[j+1])/2; bool in=false;
		for( auto& s:sd ) { bool ua=branch( gt(s.a.getY(),cy) ), ub=branch( gt(s.b.getY(),cy) ); if( ua!=ub && branch( gt(s.a.getX(),cx) ) ) in=!in; }
		if( in!=( within(a,cx,cy)||within(b,cx,cy) ) ) ok=false;
	}
	check( ok, "union-cells" );
}
CASE(sliding)
{
	int k=choose("k",4); static const double S[4][2]={{2,1},{6,1.5},{1,5},{7,6}}; Num x=in("x",-9,6), y=in("y",-7,5);
	verdict( { 0,0,4,3 }, { x,y,x+S[k][0],y+S[k][1] } );
}
// at other places and scales
CASE(places)
{
	int p=1+choose("p",2), k=choose("k",4); auto P=placeOf(p); static const double O[4][2]={{1,1},{-1,0},{4,-2},{0,3}}; Num w=P.s*in("w",0.1,8); static const double H[2]={1.5,6}; double h=P.s*H[choose("h",2)];
	auto r=[&]( double x, double y, Num W, Num G ) { return B4{ P.x+P.s*x, P.y+P.s*y, P.x+P.s*x+W, P.y+P.s*y+G }; };
	verdict( r(0,0,P.s*4,P.s*3), r(O[k][0],O[k][1],w,h) );
}
CASE(stretching)
{
	int k=choose("k",3); static const double O[3][2]={{1,1},{-1,0},{0,-2}}; Num w=in("w",0.1,8), h=in("h",0.1,8);
	verdict( { 0,0,4,3 }, { O[k][0],O[k][1],O[k][0]+w,O[k][1]+h } );
}
CASE(shared)
{
	// on shared lines
	int k=choose("k",4), o=choose("o",2); Num t=in("t",-5,6), L=in("L",0.1,8);
	B4 b= k==0? B4{0,t,2,t+L} : k==1? B4{-1,t,4,t+L} : k==2? B4{4,t,5,t+L} : B4{0,t,4,t+L};
	if( o ) b={ b.y0*0.75,b.x0*0.75,b.y1*0.75,b.x1*0.75 };
	verdict( { 0,0,4,3 }, b );
}
CASE(same)
{
	Num x=in("x",-5,5), y=in("y",-5,5), W=in("w",0.1,5), H=in("h",0.1,5); FRect a(Point2d(x,y),Point2d(x+W,y+H)), b(Point2d(x+W,y),Point2d(x,y+H));
	auto i=a&b; check( i(), "inter" ); if( i() ) check( i.get()==a, "inter-rect" );
	auto u=a|b; check( near(u.area(),W*H,1e-5), "union" ); check( near(IoU(a,b),1,1e-6), "iou" );
}
