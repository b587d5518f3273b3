#include "geom.hpp"
// near the origin, then large and small rectangles far from it
static Place at() { return placeOf( choose("place",4) ); }
#define PLACED Place P=at(); Num x=P.x+P.s*in("x",-5,5), y=P.y+P.s*in("y",-5,5), W=P.s*in("w",0.01,5), H=P.s*in("h",0.01,5)
static Fm isRect( const FRect& r, Num x0, Num y0, Num x1, Num y1 )
{ auto p=r.getPts(); return And( nearpt(p.first,x0,y0), nearpt(p.second,x1,y1) ); }
CASE(translate)
{
	int how=choose("how",4); PLACED; Num dx=P.s*in("dx",-5,5), dy=P.s*in("dy",-5,5);
	FRect r(Point2d(x,y),Point2d(x+W,y+H));
	if( how==0 ) r.translate(dx,dy); if( how==1 ) r.translate(std::make_pair(dx,dy)); if( how==2 ) translate(r,dx,dy); if( how==3 ) translate(r,std::make_pair(dx,dy));
	check( isRect(r,x+dx,y+dy,x+W+dx,y+H+dy), "translate" );
}
CASE(move)
{
	int how=choose("how",4); PLACED; Num dx=P.s*in("dx",-5,5), dy=P.s*in("dy",-5,5);
	FRect r(Point2d(x,y),Point2d(x+W,y+H));
	if( how==0 ) r.moveTo(dx,dy); if( how==1 ) r.moveTo(Point2d(dx,dy)); if( how==2 ) moveTo(r,dx,dy); if( how==3 ) moveTo(r,Point2d(dx,dy));
	check( isRect(r,dx,dy,dx+W,dy+H), "move" );
}
static const Rotate RT[5]={Rotate::CCW,Rotate::CW,Rotate::Full,Rotate::VMirror,Rotate::HMirror};
static void mapPt( int k, Num x, Num y, Num& X, Num& Y )
{
	if( k==0 ) { X=-y; Y=x; } if( k==1 ) { X=y; Y=-x; } if( k==2 ) { X=-x; Y=-y; } if( k==3 ) { X=-x; Y=y; } if( k==4 ) { X=x; Y=-y; }
}
CASE(rotate)
{
	int k=choose("k",5), how=choose("how",2); PLACED;
	FRect r(Point2d(x,y),Point2d(x+W,y+H)); if( how ) rotate(r,RT[k]); else r.rotate(RT[k]);
	Num a,b,c,d; mapPt(k,x,y,a,b); mapPt(k,x+W,y+H,c,d);
	Num x0= (k==0||k==2||k==3)? c : a, x1= (k==0||k==2||k==3)? a : c, y0= (k==1||k==2||k==4)? d : b, y1= (k==1||k==2||k==4)? b : d;
	check( isRect(r,x0,y0,x1,y1), "rotate" );
}
CASE(rotate_around)
{
	int k=choose("k",5), how=choose("how",2); PLACED; Num u=P.x+P.s*in("u",-5,5), v=P.y+P.s*in("v",-5,5);
	FRect r(Point2d(x,y),Point2d(x+W,y+H)); Point2d q(u,v); if( how ) rotate(r,RT[k],q); else r.rotate(RT[k],q);
	Num a,b,c,d; mapPt(k,x-u,y-v,a,b); mapPt(k,x+W-u,y+H-v,c,d);
	Num x0= (k==0||k==2||k==3)? c : a, x1= (k==0||k==2||k==3)? a : c, y0= (k==1||k==2||k==4)? d : b, y1= (k==1||k==2||k==4)? b : d;
	check( isRect(r,x0+u,y0+v,x1+u,y1+v), "rotate" );
}
CASE(circles)
{
	PLACED; int f=choose("f",2);
	FRect r(Point2d(x,y),Point2d(x+W,y+H)); Circle b= f? getBoundingCircle(r) : r.getBoundingCircle(), i= f? getInscribedCircle(r) : r.getInscribedCircle();
	check( nearpt(b.center(),x+W/2,y+H/2), "bounding-center" ); check( nearpt(i.center(),x+W/2,y+H/2), "inscribed-center" );
	check( near(b.radius()*b.radius()*4,W*W+H*H,1e-5), "bounding-radius" );
	Num m= branch( lt(W,H) ) ? W : H;
	check( near(i.radius()*2,m,1e-5), "inscribed-radius" );
}
CASE(extended)
{
	PLACED;
	FRect r(Point2d(x,y),Point2d(x+W,y+H));
	check( isRect(r.getExtended(),x-W,y-H,x+2*W,y+2*H), "extended" ); check( isRect(getExtended(r),x-W,y-H,x+2*W,y+2*H), "extended-free" );
	check( isRect(r,x,y,x+W,y+H), "unchanged" );
}
CASE(sequence)
{
	// moves chained: the last state counts
	int a=choose("a",3), b=choose("b",3); Num x=in("x",-5,5), y=in("y",-5,5), t=in("t",-5,5); Num X=x,Y=y,W=3,H=1.25;
	FRect r(Point2d(x,y),Point2d(x+W,y+H));
	for( int k:{a,b} )
	{
		if( k==0 ) { r.translate(t,1); X+=t; Y+=1; }
		if( k==1 ) { r.moveTo(Point2d(t,-1)); X=t; Y=-1; }
		if( k==2 ) { r.rotate(Rotate::CCW); Num n=-(Y+H); Y=X; X=n; std::swap(W,H); }
	}
	check( isRect(r,X,Y,X+W,Y+H), "sequence" ); check( near(r.area(),3.75,1e-6), "area" );
}
