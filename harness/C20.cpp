#include "geom.hpp"
static void corners( const FRect& r, Num x0, Num y0, Num x1, Num y1, const std::string& w )
{
	auto p=r.getPts(); auto f=getPts(r); auto q=r.get4Pts(); auto g=get4Pts(r);
	check( And( nearpt(p.first,x0,y0), nearpt(p.second,x1,y1), nearpt(f.first,x0,y0), nearpt(f.second,x1,y1) ), w+"-pts" );
	check( And( nearpt(q[0],x0,y0), nearpt(q[1],x0,y1), nearpt(q[2],x1,y1), nearpt(q[3],x1,y0) ), w+"-4pts" );
	check( And( nearpt(g[0],x0,y0), nearpt(g[1],x0,y1), nearpt(g[2],x1,y1), nearpt(g[3],x1,y0) ), w+"-4pts-free" );
	Num W=x1-x0, H=y1-y0;
	check( And( near(r.width(),W,1e-6), near(r.height(),H,1e-6), near(width(r),W,1e-6), near(height(r),H,1e-6) ), w+"-sizes" );
	check( And( near(r.area(),W*H,1e-5), near(area(r),W*H,1e-5), near(r.length(),2*(W+H),1e-5), near(length(r),2*(W+H),1e-5) ), w+"-measures" );
	check( And( nearpt(r.getCenter(),(x0+x1)/2,(y0+y1)/2), nearpt(getCenter(r),(x0+x1)/2,(y0+y1)/2) ), w+"-center" );
	check( r.size()==4 && size(r)==4, w+"-size" );
	auto s=r.getSegs(); auto t=getSegs(r);
	auto seg=[&]( const Segment& a, Num ax, Num ay, Num bx, Num by ) { auto e=a.getPts(); return And( nearpt(e.first,ax,ay), nearpt(e.second,bx,by) ); };
	for( auto& v:{s,t} )
		check( And( seg(v[0],x0,y0,x0,y1), seg(v[1],x0,y1,x1,y1), seg(v[2],x1,y0,x1,y1), seg(v[3],x0,y0,x1,y0) ), w+"-segs" );
	auto d=r.getDiagonals(); auto e=getDiagonals(r);
	check( And( seg(d.first,x0,y0,x1,y1), seg(d.second,x0,y1,x1,y0), seg(e.first,x0,y0,x1,y1), seg(e.second,x0,y1,x1,y0) ), w+"-diagonals" );
	check( And( nearpt(r.getBB().getPts().first,x0,y0), nearpt(r.getBB().getPts().second,x1,y1) ), w+"-bb" );
}
CASE(corners)
{
	int o=choose("o",4), how=choose("how",6); Num x=in("x",-8,8), y=in("y",-8,8), W=in("w",0.01,9), H=in("h",0.01,9);
	Num ax= o&1? x+W : x, bx= o&1? x : x+W, ay= o&2? y+H : y, by= o&2? y : y+H; Point2d a(ax,ay), b(bx,by);
	FRect r;
	if( how==0 ) r=FRect(a,b);
	if( how==1 ) r=FRect(ax,ay,bx,by);
	if( how==2 ) r=FRect(std::make_pair(a,b));
	if( how==3 ) r.set(a,b);
	if( how==4 ) r.set(ax,ay,bx,by);
	if( how==5 ) { FRect q(a,b); FRect z(q); r=z; }
	corners( r, x,y,x+W,y+H, "rect" );
}
CASE(center_sizes)
{
	Num x=in("x",-8,8), y=in("y",-8,8), W=in("w",0.01,9), H=in("h",0.01,9);
	corners( FRect(Point2d(x,y),W,H), x-W/2,y-H/2,x+W/2,y+H/2, "center" );
}
CASE(places)
{
	// large and small rectangles, far from the origin
	Place P=placeOf( choose("place",4) ); int how=choose("how",2);
	Num x=P.x+P.s*in("x",-8,8), y=P.y+P.s*in("y",-8,8), W=P.s*in("w",0.01,9), H=P.s*in("h",0.01,9);
	FRect r= how ? FRect(Point2d(x+W/2,y+H/2),W,H) : FRect(Point2d(x+W,y),Point2d(x,y+H));
	corners( r, x,y,x+W,y+H, "placed" );
}
CASE(sizes_int)
{
	Num x=in("x",-8,8); corners( FRect(Point2d(x,2*x),3,5), x-1.5,2*x-2.5,x+1.5,2*x+2.5, "int" );
	FRect r; corners( r, 0,0,1,1, "default" ); FRect q(1,5,3,4); corners( q, 1,4,3,5, "four-int" );
}
CASE(container_bb)
{
	// from a set of points
	int k=choose("k",3); Num x=in("x",-8,8), y=in("y",-8,8); clearly(x-3,1e-2);
	std::vector<Point2d> v{ Point2d(x,y), Point2d(-1,2), Point2d(3,1) }; std::rotate( v.begin(), v.begin()+k, v.end() );
	auto mn=[]( Num a, Num b ) { return branch( lt(a,b) ) ? a : b; }; auto mx=[]( Num a, Num b ) { return branch( lt(a,b) ) ? b : a; };
	corners( getBB(v), mn(x,-1),mn(y,1),mx(x,3),mx(y,2), "set" );
}
CASE(rejected)
{
	Num x=in("x",-8,8), y=in("y",-8,8), h=in("h",-9,9); int k=choose("k",2);
	Point2d a(x,y), b= k? Point2d(x,y+h) : Point2d(x+h,y);
	check( throws( [&]{ FRect r(a,b); } ), "points" ); check( throws( [&]{ FRect r; r.set(a,b); } ), "set" );
	check( throws( [&]{ FRect r(std::make_pair(a,b)); } ), "pair" );
	check( throws( [&]{ FRect r(x,y,b.getX(),b.getY()); } ), "values" );
	if( k ) check( throws( [&]{ FRect r(a,Num(0),h); } ), "center" );
}
CASE(kept_after_rejection)
{
	Num x=in("x",-8,8), y=in("y",-8,8); FRect r(Point2d(1,2),Point2d(3,5));
	check( throws( [&]{ r.set(Point2d(x,y),Point2d(x,y+1)); } ), "throws" );
	corners( r, 1,2,3,5, "kept" );
}
CASE(equality)
{
	int o=choose("o",4); Num x=in("x",-3,3), y=in("y",-3,3), z=in("z",4,6);
	clearly(x,1e-3); clearly(y-1,1e-3); clearly(z-5,1e-3);
	FRect a(Point2d(0,1),Point2d(5,5)), b( Point2d(o&1?z:x,o&2?z:y), Point2d(o&1?x:z,o&2?y:z) );
	bool e=branch( And( eq(x,0), eq(y,1), eq(z,5) ) );
	check( (a==b)==e, "equal" ); check( (b==a)==e, "equal-back" ); check( (a!=b)==!e, "different" ); check( a==a && b==b, "itself" );
}
