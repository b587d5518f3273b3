#include "geom.hpp"
#include <list>
#include <array>
typedef std::vector<Point2d> Pts;
CASE(from_two)
{
	Num x=in("x",-10,10), y=in("y",-10,10), u=in("u",-10,10), v=in("v",-10,10); Point2d a(x,y), b(u,v);
	assume( ge( d2(a,b), 1e-3 ) );
	Circle c; int w=choose("w",4);
	if( w==0 ) c=Circle(a,b); else if( w==1 ) c.set(a,b); else if( w==2 ) c=Circle( Pts{b,a} ); else { std::vector<Point2d> p{a,b}; c.set(p); }
	check( nearpt( c.center(), (x+u)/2, (y+v)/2 ), "center" );
	check( near( 4*c.radius()*c.radius(), d2(a,b), 1e-6 ), "radius" );
	check( ge( c.radius(), 0 ), "positive" );
}
CASE(from_two_equal)
{
	Num x=in("x",-10,10), y=in("y",-10,10); Point2d a(x,y), b(x,y);
	check( throws([&]{ Circle c(a,b); }), "equal-rejected" );
	Circle d( Point2d(1,2), 3 ); check( throws([&]{ d.set(a,b); }), "set-equal-rejected" );
	check( d.radius()==3 && d.center()==Point2d(1,2), "unchanged" );
	check( throws([&]{ Circle c( Pts{a} ); }), "single-rejected" );
	check( throws([&]{ Circle c( Pts{} ); }), "empty-rejected" );
}
CASE(from_three)
{
	int k=choose("k",TH(3,4)), o=choose("o",TH(2,3)), z=choose("z",2); static const double B[4][4]={{0,0,4,0},{-1,-1,2,3},{0,0,0.5,0.25},{1,-2,1,3}};
	Num x=in("x",-6,6), y= TH(0,1)? in("y",-6,6) : Num(z?2.3:-1.7); Point2d p[3]={ Point2d(x,y), Point2d(B[k][0],B[k][1]), Point2d(B[k][2],B[k][3]) };
	away( cross(p[0],p[1],p[2]), 0.3 );
	Circle c; if( o==0 ) c.set( p[o], p[(o+1)%3], p[(o+2)%3] ); else c=Circle( p[o], p[(o+2)%3], p[(o+1)%3] );
	Num r2=c.radius()*c.radius();
	for( int i=0;i<3;i++ ) check( near( d2(c.center(),p[i])-r2, 0, 1e-4 ), "through" );
	check( ge( c.radius(), 0.01 ), "positive" );
	obs("c",c.center());
}
CASE(from_three_aligned)
{
	int d=choose("d",5); Dir u=dirOf(d); Num s=in("s",-5,5), t=in("t",-5,5);
	check( throws([&]{ Circle c( Point2d(1,2), Point2d(1+s*u.x,2+s*u.y), Point2d(1+t*u.x,2+t*u.y) ); }), "aligned-rejected" );
}
CASE(values)
{
	Num x=in("x",-10,10), y=in("y",-10,10), r=in("r",1e-3,10); Point2d p(x,y);
	auto is=[&]( const Circle& c, Num cx, Num cy, Num cr, const char* w )
	{
		check( And( nearpt( c.center(), cx, cy ), near( c.radius(), cr ) ), w );
		check( And( nearpt( c.getCenter(), cx, cy ), nearpt( center(c), cx, cy ), near( radius(c), cr ) ), "accessors" );
		check( And( near( c.area(), cr*cr*M_PI, 1e-6 ), near( c.length(), 2*M_PI*cr, 1e-6 ), near( area(c), c.area() ), near( length(c), c.length() ) ), "measures" );
	};
	is( Circle(), 0,0,1, "default" ); is( Circle(2.5), 0,0,2.5, "rad" ); is( Circle(p), x,y,1, "center" ); is( Circle(p,r), x,y,r, "center-rad" ); is( Circle(x,y,r), x,y,r, "xyr" );
	Circle c( Point2d(3,4), 5 ); c.set(p); is( c, x,y,5, "set-center" ); c.set(r); is( c, x,y,r, "set-rad" );
	c.set( Point2d(y,x), 2.*r ); is( c, y,x,2*r, "set-center-rad" ); c.set( x, y, r ); is( c, x,y,r, "set-xyr" );
	c.radius()=2; is( c, x,y,2, "write-radius" ); c.center()=Point2d(1,y); is( c, 1,y,2, "write-center" ); radius(c)=r; center(c)=p; is( c, x,y,r, "free-write" );
	Circle k(c); is( k, x,y,r, "copy" ); check( k==c && !(k!=c), "equal" );
	Circle m( Point2d(x,y+1), r ), n( p, r+0.5 ); check( m!=c && n!=c && !(m==c) && !(n==c), "differs" );
	check( c.size()==1 && size(c)==1, "size" );
}
CASE(bad_radius)
{
	Num r=in("r",-10,-1e-3); Point2d p(1,2);
	check( throws([&]{ Circle c(p,r); }), "negative" ); check( throws([&]{ Circle c(p,0.); }), "null" ); check( throws([&]{ Circle c(1.,2.,1e-12); }), "tiny" );
	Circle d; check( throws([&]{ d.set(p,r); }), "set-negative" );
	check( d.radius()==1 && d.center()==Point2d(), "unchanged" );
}
// ------------------------------------------------ minimum enclosing circle
static void mec( const Pts& v, int how=0 )
{
	Circle c; bool th=throws([&]{
		if( how==0 ) c=Circle(v); else if( how==1 ) c.set(v);
		else if( how==2 ) { std::list<Point2d> l( v.begin(), v.end() ); c.set(l); }
		else { std::array<Point2d,4> a; std::copy( v.begin(), v.end(), a.begin() ); c=Circle(a); }
	});
	check( !th, "no-throw" ); if( th ) return;
	check( throws([]{ Circle k( Point2d(1,2), 0. ); }), "null-radius-still-rejected" );
	Num R=c.radius()*c.radius(); Point2d o=c.center();
	for( auto& p:v ) check( le( d2(p,o), R+1e-4 ), "contains" );
	// support: two opposite points, or three whose triangle contains the center
	std::vector<Fm> f; const double t=1e-4;
	for( size_t i=0;i<v.size();i++ ) for( size_t j=i+1;j<v.size();j++ )
	{
		f.push_back( And( nearpt( o, (v[i].getX()+v[j].getX())/2, (v[i].getY()+v[j].getY())/2, t ), near( d2(v[i],v[j]), 4*R, 4*t ) ) );
		for( size_t k=j+1;k<v.size();k++ )
		{
			Num a=cross(v[i],v[j],o), b=cross(v[j],v[k],o), g=cross(v[k],v[i],o);
			f.push_back( And( near(d2(v[i],o),R,t), near(d2(v[j],o),R,t), near(d2(v[k],o),R,t), Or( And(ge(a,-t),ge(b,-t),ge(g,-t)), And(le(a,t),le(b,t),le(g,t)) ) ) );
		}
	}
	check( any(f), "minimal" );
}
static Point2d P( Num x, Num y ) { return Point2d(x,y); }
CASE(mec_three)
{
	int k=choose("k",3), o=choose("o",3), h=o, z=choose("z",2); static const double B[3][4]={{0,0,4,0},{1,-2,1,3},{-1,-1,2,3}};
	Num x=in("x",-6,6), y= TH(0,1)? in("y",-6,6) : Num(z?2.3:-1.7); Point2d a(x,y), b(B[k][0],B[k][1]), c(B[k][2],B[k][3]);
	away( cross(a,b,c), 0.3 ); assume( And( ge(d2(a,b),1e-2), ge(d2(a,c),1e-2) ) );
	Num s1=(b.getX()-x)*(c.getX()-x)+(b.getY()-y)*(c.getY()-y); away( s1, 1e-2 ); // a not at the limit of the right angle
	Pts v{a,b,c}; std::rotate( v.begin(), v.begin()+o, v.end() );
	mec( v, h );
}
CASE(mec_four)
{
	int k=choose("k",TH(2,4)), o=choose("o",4), h= TH(0,1)? choose("h",4) : o, z=choose("z",TH(2,3)); static const double B[4][6]={{0,0,4,0,1,3},{0,0,4,0,4,1},{-3,0,3,0.5,1,-1},{0,0,1,0.2,2,1}};
	static const double Z[3]={0.3,2.2,-3.1};
	Num x=in("x",-6,6); Pts v{ P(x,Z[z]), P(B[k][0],B[k][1]), P(B[k][2],B[k][3]), P(B[k][4],B[k][5]) };
	std::rotate( v.begin(), v.begin()+o, v.end() ); if( h==3 ) std::swap( v[1], v[2] );
	mec( v, h );
}
CASE(mec_five)
{
	int o=choose("o",TH(3,5)), z=choose("z",2); static const double Z[2]={0.35,3.4};
	Num x=in("x",-6,6); Pts v{ P(x,Z[z]), P(0,0), P(4,0), P(1,3), P(2.5,-1.5) };
	std::rotate( v.begin(), v.begin()+o, v.end() );
	mec( v, o%3 );
}
CASE(mec_scaled)
{
	// squares, rectangles, regular and irregular cocircular points, repeated points
	int k=choose("k",5), o=choose("o",5), h=choose("h",3); Num s=in("s",0.1,5), t=in("t",-3,3); Pts v;
	if( k==0 ) v={ P(t,0), P(t+s,0), P(t+s,s), P(t,s) };
	if( k==1 ) v={ P(t,1), P(t+2*s,1), P(t+2*s,1+s), P(t,1+s), P(t+s,1) };
	if( k==2 ) v={ P(t+s,0), P(t+0.6*s,0.8*s), P(t-0.6*s,0.8*s), P(t,-s), P(t+0.28*s,-0.96*s) };
	if( k==3 ) v={ P(t,0), P(t+s,0), P(t,0), P(t,s), P(t+s,0) };
	if( k==4 ) v={ P(t+s,1), P(t-s,1), P(t,1-s), P(t+0.6*s,1+0.8*s) };
	if( o>=(int)v.size() ) skip("order");
	std::rotate( v.begin(), v.begin()+o, v.end() );
	mec( v, h );
}
CASE(mec_aligned)
{
	int d=choose("d",4), n=choose("n",3), o=choose("o",TH(6,24)); Dir u=dirOf(d); Num a=in("a",0.1,2), b=in("b",0.1,2);
	Pts v; Num s[5]={0,a,a+b,a+2*b,2*a+3*b}; int m=n+3;
	std::vector<int> q; for( int i=0;i<m;i++ ) q.push_back(i);
	for( int i=0;i<o;i++ ) std::next_permutation( q.begin(), q.end() );
	for( int i=0;i<m;i++ ) v.push_back( P( 1+s[q[i]]*u.x, -2+s[q[i]]*u.y ) );
	mec( v );
}
CASE(mec_same)
{
	Num x=in("x",-5,5), y=in("y",-5,5); Pts v{ P(x,y), P(x,y), P(x,y), P(x,y) };
	Circle c( Point2d(1,1), 2 );
	bool th=throws([&]{ c.set(v); });
	if( th ) check( c.radius()==2, "unchanged" );
	check( throws([]{ Circle k( Point2d(1,2), 0. ); }), "null-radius-still-rejected" );
}
CASE(mec_big)
{
	int o=choose("o",TH(2,8)), z=TH(1-o,choose("z",2)); static const double Z[2]={0.35,5.4}; Num x=in("x",-6,8); Pts v{ P(x,Z[z]), P(0,0), P(4,0), P(1,3), P(2.5,-1.5), P(3,2.5), P(-0.5,1.5), P(1.5,1) };
	std::rotate( v.begin(), v.begin()+TH(5,1)*o, v.end() ); mec( v, o%3 );
}
CASE(mec_big_scaled)
{
	// eight points of a circle among which a diameter, or all on one side; with inner points
	int k=choose("k",2), o=choose("o",TH(3,9)), h=choose("h",2); Num s=in("s",0.1,50), t=in("t",-300,300); Pts v; static const double U[9][2]={{1,0},{0.8,0.6},{0.6,0.8},{0.28,0.96},{-0.28,0.96},{-0.8,0.6},{0.96,-0.28},{0.2,0.3},{-0.4,-0.5}};
	for( auto& u:U ) v.push_back( P(t+s*u[0],t-s*u[1]) ); if( k ) v[4]=P(t-s,t); std::rotate( v.begin(), v.begin()+o, v.end() ); mec( v, h );
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int k=choose("k",3), w=choose("w",2); static const double B[3][4]={{0,0,4,0},{-1,-1,2,3},{1,-2,1,3}}; Num x=in("x",-6,6), y=1.7-x/3; if( w ) y=-2.3; Point2d p[3]={ Point2d(x,y), Point2d(B[k][0],B[k][1]), Point2d(B[k][2],B[k][3]) }, q[3]; for( int i=0;i<3;i++ ) q[i]=inPlace(P,p[i].getX(),p[i].getY());
	away( cross(p[0],p[1],p[2]), 0.3 ); Circle c; c.set(q[0],q[1],q[2]); Num R=c.radius()/P.s; Point2d o=fromPlace(P,c.center()); for( int i=0;i<3;i++ ) check( near( d2(o,p[i])-R*R, 0, 1e-3 ), "through" ); check( ge(R,0.01), "positive" );
	Circle e(q[0],q[1]); check( And( nearpt( fromPlace(P,e.center()), (x+p[1].getX())/2, (y+p[1].getY())/2, 1e-5 ), near( 4*sq(e.radius()/P.s), d2(p[0],p[1]), 1e-3 ) ), "two" );
	// smallest circle: of two points when the third is inside, otherwise of the three
	Num s[3]; int z=-1; for( int i=0;i<3;i++ ) { auto& a=p[i]; auto& b=p[(i+1)%3]; auto& g=p[(i+2)%3]; s[i]=(b.getX()-a.getX())*(g.getX()-a.getX())+(b.getY()-a.getY())*(g.getY()-a.getY()); away(s[i],1e-2); if( branch( lt(s[i],0) ) ) z=i; }
	Circle m( Pts{q[0],q[1],q[2]} ); o=fromPlace(P,m.center()); Num r=m.radius()/P.s; if( z<0 ) check( And( nearpt( m.center(), c.center(), 1e-3*(1+P.s) ), near( r, R, 1e-3 ) ), "smallest-three" ); else { auto& a=p[(z+1)%3]; auto& b=p[(z+2)%3]; check( And( nearpt( o, (a.getX()+b.getX())/2, (a.getY()+b.getY())/2, 1e-3 ), near( 4*r*r, d2(a,b), 1e-2 ) ), "smallest-two" ); }
}
