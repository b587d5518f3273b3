#include "geom.hpp"
// concrete angles, all quadrants, axes included
static double ang( int k ) { static const double t[]={0,M_PI/2,std::atan2(0.8,0.6),std::atan2(-0.6,0.8),std::atan2(0.96,-0.28),M_PI/4,-3*M_PI/4,M_PI,3.5}; return t[k]; }
static Fm sameDir( const Num& a, const Num& b, double tol=1e-5 ) { return near( std::sin(a)*std::cos(b)-std::cos(a)*std::sin(b), 0, tol ); }
static void isEll( const Ellipse& e, Num x, Num y, Num A, Num B, const std::string& w )
{
	auto mm=e.getMajMin();
	check( nearpt( e.getCenter(), x,y, 1e-5 ), w+"-center" );
	check( And( near(mm.first,A,1e-5), near(mm.second,B,1e-5) ), w+"-axes" );
}
static Ellipse E( Num x, Num y, Num A, Num B, Num t=0 ) { return Ellipse(x,y,A,B,t); }
CASE(center_concrete)
{
	int k=choose("k",9), s=choose("s",3); Num x=in("x",-10,10), y=in("y",-10,10); Ellipse e;
	static const double A[3]={2,5,1.25}, B[3]={1,0.5,1};
	if( k%2 ) e=Ellipse(x,y,A[s],B[s],ang(k)); else e=Ellipse(Point2d(x,y),A[s],B[s],ang(k));
	isEll(e,x,y,A[s],B[s],"e"); check( sameDir( e.angle(), Num(ang(k)) ), "angle" ); check( sameDir( angle(e), Num(ang(k)) ), "angle-free" );
	check( nearpt( getCenter(e),x,y,1e-5 ), "center-free" );
	check( near( e.area(), M_PI*A[s]*B[s], 1e-4 ), "area" ); check( near( area(e), M_PI*A[s]*B[s], 1e-4 ), "area-free" );
	check( !e.isCircle(), "not-circle" );
}
CASE(axes_concrete_angle)
{
	int k=choose("k",9), sw=choose("swap",2), w=0; if( k==5||k==6||k==8 ) w=1+choose("w",2);
	Num a=w==2?Num(5):in("a",0.1,8), b=w==1?Num(0.75):in("b",0.1,8); assume( ge(a-b,0.05) );
	Ellipse e= sw? Ellipse(1,-2,b,a,ang(k)) : Ellipse(Point2d(1,-2),a,b,ang(k));
	isEll(e,1,-2,a,b,"e"); check( sameDir( e.angle(), Num(ang(k)) ), "angle" );
	check( near( e.area(), M_PI*a*b, 1e-4 ), "area" );
	check( !isCircle(e), "not-circle" );
}
CASE(angle_symbolic)
{
	Num t=in("t",-3,3); int s=choose("s",2); static const double A[2]={3,2}, B[2]={1,1.5};
	Num c=std::cos(t), n=std::sin(t); away(c,1e-3); away(n,1e-3);
	Ellipse e(1,-2,A[s],B[s],t);
	isEll(e,1,-2,A[s],B[s],"e"); check( sameDir( e.angle(), t ), "angle" );
}
CASE(length)
{
	int k=choose("k",3); Num a=in("a",0.1,8), b=in("b",0.1,8); assume( ge(a-b,0.05) );
	Ellipse e(1,-2,a,b,ang(k)); Num h=sq(a-b)/sq(a+b), l=M_PI*(a+b)*(1+3*h/(10+std::sqrt(4-3*h)));
	check( near( e.length(), l, 1e-3 ), "ramanujan" ); check( near( length(e), l, 1e-3 ), "ramanujan-free" );
	check( And( ge( e.length(), 4*a ), le( e.length(), 2*M_PI*a ) ), "bounds" );
}
CASE(length_values)
{
	int k=choose("k",3); Num x=in("x",-10,10); static const double a[3]={2,5,3}, b[3]={1,4,0.5}, l[3]={9.688448220547675,28.361667888974,12.45003979501514};
	Ellipse e=E(x,2,a[k],b[k],0.4); check( near( e.length(), l[k], 2e-2 ), "value" );
}
CASE(from_circle)
{
	Num x=in("x",-10,10), y=in("y",-10,10), R=in("R",0.1,10); Ellipse e(Circle(Point2d(x,y),R));
	isEll(e,x,y,R,R,"e"); check( e.isCircle(), "circle" ); check( isCircle(e), "circle-free" );
	check( near( e.area(), M_PI*R*R, 1e-3 ), "area" ); check( near( e.length(), 2*M_PI*R, 1e-3 ), "length" );
}
CASE(is_circle)
{
	Num a=in("a",0.5,5), d=in("d",-0.4,0.4); int k=choose("k",3); Ellipse e=E(1,2,a,a+d,ang(k));
	assume( Or( eq(d,0), absge(d,1e-3) ) );
	check( e.isCircle()==branch( eq(d,0) ), "circle" );
	check( e.isCircle(10000), "threshold" ); check( isCircle(e,10000), "threshold-free" );
}
CASE(defaults)
{
	Num x=in("x",-10,10), y=in("y",-10,10), m=in("m",2.5,9); Ellipse e;
	isEll(e,0,0,2,1,"default"); check( sameDir( e.angle(),0 ), "default-angle" );
	Ellipse f(x,y); isEll(f,x,y,2,1,"xy"); Ellipse g((Point2d(x,y))); isEll(g,x,y,2,1,"point"); check( sameDir( g.angle(),0 ), "point-angle" );
	Ellipse h(Point2d(x,y),m); isEll(h,x,y,m,1,"major"); check( e.size()==1 && e.type()==Type::Ellipse, "type" );
	Ellipse i=E(x,y,m,2); isEll(i,x,y,m,2,"axes"); check( sameDir( i.angle(),0 ), "axes-angle" );
}
// equality: same geometric ellipse, operands unchanged
CASE(equal_same)
{
	int k=choose("k",5); Num x=in("x",-5,5), y=2*x-1;
	Ellipse e=E(x,y,3,1.5,ang(k)), f=E(x,y,3,1.5,ang(k)), g(Point2d(x,y),1.5,3.,ang(k));
	check( e==f && f==e && !(e!=f), "same" ); check( e==g, "swapped" ); check( e==e, "reflexive" );
	isEll(e,x,y,3,1.5,"after"); isEll(f,x,y,3,1.5,"after-right"); check( sameDir( e.angle(), Num(ang(k)) ), "after-angle" );
}
CASE(equal_moved) // stays comparable after changes
{
	int k=choose("k",4), w=choose("w",2); Num d=in("d",-3,3); away(d,0.05);
	Ellipse e=E(0,2.5,3,1.5,ang(k)), f=e; bool q= e==f;
	if( w ) e.translate(d,1-d); else e.moveTo(d,3.5-d);
	check( q && e==E(d,3.5-d,3,1.5,ang(k)), "equal-after-move" ); check( e!=f, "differs-after-move" );
	isEll(f,0,2.5,3,1.5,"copy");
}
CASE(equal_mirror) // one coefficient of the conic differs by its sign only
{
	int w=choose("w",4); Num x=in("x",-9,9), y=in("y",-9,9); away(x,0.01); away(y,0.01); double t=0.5; Ellipse e=E(x,y,3,1.5,w>1?t:0.), f= w==0? E(x,-y,3,1.5,0.) : w==1? E(-x,y,3,1.5,0.) : w==2? E(x,y,3,1.5,-t) : E(-x,y,3,1.5,-t); check( e!=f, "mirror" ); check( !(f==e), "mirror-equal" );
}
CASE(equal_halfturn)
{
	Num x=in("x",-5,5), y=in("y",-5,5), a=in("a",1,5); int k=choose("k",2); assume( absge(a-2,0.1) );
	Ellipse e=E(x,y,a,2,k?M_PI/2:0.), f=E(x,y,a,2,k?-M_PI/2:M_PI); check( e==f, "half-turn" );
}
CASE(equal_other)
{
	int k=choose("k",5), w=choose("w",5), q=choose("q",3); Num x=q-1, y=2*x-1, d=in("d",-0.9,0.9); away(d,0.05);
	Ellipse e=E(x,y,3,1.5,ang(k)), f= w==0? E(x+d,y,3,1.5,ang(k)) : w==1? E(x,y+d,3,1.5,ang(k)) : w==2? E(x,y,3+d,1.5,ang(k)) : w==3? E(x,y,3,1.5+d,ang(k)) : E(x,y,3,1.5,ang(k)+0.3);
	check( e!=f, "other" ); check( !(e==f), "other-not-equal" );
}
CASE(concentric_scaled)
{
	Num s=in("s",0.3,3); away(s-1,0.05); int k=choose("k",2);
	Ellipse e=E(0,0,2,1,ang(k*2)), f=E(0,0,2*s,s,ang(k*2)); check( e!=f, "scaled" ); isEll(f,0,0,2*s,s,"after");
}
// precision: known values through other numeric types
CASE(copies)
{
	Num x=in("x",-5,5), y=in("y",-5,5); Ellipse e=E(x,y,3,1,0.5), f(e), g; g=e;
	check( f==e && g==e, "copies" ); f.moveTo(1,1); isEll(e,x,y,3,1,"independent"); isEll(g,x,y,3,1,"assigned");
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",2) ); int k=choose("k",9), s=choose("s",3); static const double A[3]={2,5,1.25}, B[3]={1,0.5,1}; Num x=in("x",-9,9), y=in("y",-9,9);
	Ellipse e( inPlace(P,x,y), Num(P.s*A[s]), Num(P.s*B[s]), Num(ang(k)) ); auto m=e.getMajMin(); check( nearpt( fromPlace(P,e.getCenter()), x,y, 1e-3 ), "center" ); check( And( near( m.first/P.s, A[s], 1e-3 ), near( m.second/P.s, B[s], 1e-3 ) ), "axes" ); check( sameDir( e.angle(), Num(ang(k)), 1e-3 ), "angle" ); check( near( e.area()/(P.s*P.s), M_PI*A[s]*B[s], 1e-2 ), "area" ); check( !e.isCircle(), "not-circle" );
}
