#include "geom.hpp"
static void normalised( const Line2d& l )
{
	auto v=l.get();
	check( near( v[0]*v[0]+v[1]*v[1], 1 ), "unit-normal" );
	check( ge( v[0], -1e-9 ), "a-nonneg" );
	check( Imp( absle(v[0],1e-11), gt(v[1],0) ), "b-positive-when-a-null" );
}
CASE(from_two_points)
{
	Num x1=in("x1",-10,10), y1=in("y1",-10,10), x2=in("x2",-10,10), y2=in("y2",-10,10);
	Point2d p(x1,y1), q(x2,y2);
	assume( ge( sq(x1-x2)+sq(y1-y2), 1e-3 ) );
	Line2d l(p,q);
	check( near( evalLine(l,p),0 ), "through-p" );
	check( near( evalLine(l,q),0 ), "through-q" );
	auto v=l.get(); observe("a",v[0]); observe("b",v[1]); observe("c",v[2]);
}
CASE(norm_two_points)
{
	Num x2=in("x2",-10,10), y2=in("y2",-10,10);
	int k=choose("k",3); Num x1= k==0?0: k==1? 2: -3, y1= k==0? 0: k==1? -1.5: 4;
	Point2d p(x1,y1), q(x2,y2);
	assume( ge( sq(x1-x2)+sq(y1-y2), 1e-3 ) );
	normalised( Line2d(p,q) );
	Line2d l(p,q), m(q,p), n=p*q, o; o=q*p;
	auto a=l.get(), b=m.get(), c=n.get(), d=o.get();
	Line2d e(x1,y1,x2,y2);
	auto f=e.get();
	for( int i=0; i<3; i++ )
	{
		check( near(a[i],b[i]), "order-independent" );
		check( near(a[i],c[i]), "product" );
		check( near(a[i],d[i]), "product2" );
		check( near(a[i],f[i]), "four-values" );
	}
}
CASE(identical_points)
{
	Num x=in("x",-10,10), y=in("y",-10,10);
	Point2d p(x,y), q(x,y);
	check( throws( [&]{ Line2d l(p,q); } ), "ctor-rejects" );
	check( throws( [&]{ Line2d l=p*q; } ), "product-rejects" );
	check( throws( [&]{ Line2d l(x,y,x,y); } ), "four-values-rejects" );
}
CASE(distinct_points_accepted)
{
	Num x=in("x",-10,10), y=in("y",-10,10), dx=in("dx",-1,1); int v=choose("v",2);
	away( dx, 1e-3 );
	Point2d p(x,y), q( v? x+dx:x, v? y: y+dx );
	check( !throws( [&]{ Line2d l(p,q); } ), "accepts" );
}
CASE(from_origin)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int s=choose("s",3);
	assume( ge( x*x+y*y, 1e-3 ) );
	Line2d l= s==0? Line2d(x,y) : s==1? Line2d(Point2d(x,y)) : Line2d( Point2d(x,y), Point2d() );
	check( near( evalLine(l,0,0),0 ), "through-origin" );
	check( near( evalLine(l,x,y),0 ), "through-point" );
	normalised(l);
}
CASE(coefficients)
{
	Num a=in("a",-5,5), b=in("b",-5,5), c=in("c",-5,5); int s=choose("s",4);
	assume( ge( a*a+b*b, 1e-3 ) );
	Line2d l; std::array<Num,3> arr{a,b,c}; std::vector<Num> vec{a,b,c};
	if( s==0 ) l.set(a,b,c); else if( s==1 ) l=Line2d(a,b,c); else if( s==2 ) l=Line2d(arr); else l=Line2d(vec);
	auto v=l.get();
	check( And( near( v[0]*b-v[1]*a,0 ), near( v[0]*c-v[2]*a,0 ), near( v[1]*c-v[2]*b,0 ) ), "proportional" );
	normalised(l);
	observe("a",v[0]); observe("b",v[1]); observe("c",v[2]);
}
CASE(degenerate_coefficients)
{
	Num c=in("c",-5,5);
	check( throws( [&]{ Line2d l(0,0,c); } ), "null-normal-rejected" );
}
CASE(orientation_ctor)
{
	Num v=in("v",-100,100); Num x=in("x",-100,100), y=in("y",-100,100);
	Line2d h(LineDir::H,v), w(LineDir::V,v);
	check( near( evalLine(h,x,v),0 ), "horizontal" );
	check( near( evalLine(w,v,y),0 ), "vertical" );
	normalised(h); normalised(w);
	Point2d p(x,y); Line2d h2(LineDir::H,p), w2(LineDir::V,p);
	check( And( near( evalLine(h2,v,y),0 ), near( evalLine(w2,x,v),0 ) ), "through-point" );
	Line2d d; normalised(d);
	check( near( evalLine(d,0,v),0 ), "default-is-vertical-axis" );
}
CASE(near_vertical_horizontal)
{
	Num e=in("e",-1e-3,1e-3), c=in("c",-5,5); int k=choose("k",4);
	Line2d l;
	if( k==0 ) l.set( e,1,c ); else if( k==1 ) l.set( 1,e,c ); else if( k==2 ) l.set( e,-1,c ); else l.set( -1,e,c );
	normalised(l);
	auto v=l.get(); Num sg= k<2?1:-1;
	// same line: proportional to the given coefficients
	Num a= k==0||k==2? e: sg, b= k==0||k==2? sg: e;
	check( And( near( v[0]*b-v[1]*a,0,1e-9 ), near( v[0]*c-v[2]*a,0,1e-9 ), near( v[1]*c-v[2]*b,0,1e-9 ) ), "proportional" );
}
CASE(equality)
{
	Num c1=in("c1",-5,5), c2=in("c2",-5,5), k=in("k",-5,5); int d=choose("d",6);
	away(k,0.1);
	Dir u=dirOf(d);
	Num a=-u.y, b=u.x, n=std::sqrt(u.x*u.x+u.y*u.y);
	Line2d l(a,b,c1*n), m(a*k,b*k,c2*n*k);
	bool e=l==m;
	check( e==(m==l), "symmetric" );
	check( (l!=m)!=e, "negation" );
	check( Imp( absle(c1-c2,1e-11), T(e) ), "same-line-equal" );
	check( Imp( absge(c1-c2,1e-8), T(!e) ), "parallel-not-equal" );
	check( l==l, "reflexive" );
}
CASE(equality_direction)
{
	Num c=in("c",-5,5), t=in("t",-1,1); int d=choose("d",5);
	away(t,0.01);
	Dir u=dirOf(d);
	Num a=-u.y, b=u.x;
	Line2d l(a,b,c), m(a+t*u.x,b+t*u.y,c);
	check( !(l==m), "different-direction-not-equal" );
	check( l!=m, "different-direction-ne" );
}
// nearly horizontal lines: the normals of two parallel lines can have opposite orientations
CASE(equality_flat)
{
	Num y=in("y",-5,5), d=in("d",-1,1); int i=choose("i",6), j=choose("j",6), s=choose("sign",2);
	const double sl[6]={ -3e-4,-1e-4,-1e-9,0,1e-7,4e-4 };
	Num a1=sl[i], a2=sl[j], g= s? -1:1;
	Line2d l( a1,Num(-1),y ), m( a2*g,Num(-1)*g,(y+d)*g );
	bool e=l==m; check( e==(m==l), "symmetric" ); check( (l!=m)!=e, "negation" );
	check( Imp( absge(d,1e-5), T(!e) ), "offset" );
	Line2d k( a2*g,Num(-1)*g,y*std::sqrt(1+a2*a2)/std::sqrt(1+a1*a1)*g ); check( l==k && k==l, "same" );
}
// far from the origin, distant or close points
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",7), o=choose("o",2); Dir u=dirOf(d); Num x=in("x",-9,9), y=in("y",-9,9), t=in("t",0.1,9), e=in("e",-9,9); if( o ) t=-t;
	Point2d p=inPlace(P,x,y), q=inPlace(P,x+t*u.x,y+t*u.y); Line2d l=p*q, m(q,p); auto v=l.get();
	check( near( v[0]*v[0]+v[1]*v[1], 1 ), "unit" ); check( ge( v[0], -1e-9 ), "sign" ); check( l==m, "symmetric" );
	Num n=std::sqrt(u.x*u.x+u.y*u.y), z=evalLine( l, inPlace(P,x+e*u.x,y+e*u.y) ), h=evalLine( l, inPlace(P,x-2*u.y,y+2*u.x) )/P.s;
	check( near( z, 0 ), "on" ); check( near( h*h, 4*n*n, 1e-4 ), "off" );
}
// points given by any homogeneous coordinates, for every constructor
CASE(scaled_points)
{
	static const double W[5]={1,-2,0.25,-0.5,16}; int i=choose("i",5), j=choose("j",3), s=choose("s",6); Num x=in("x",-9,9), y=in("y",-9,9); double w=W[i], z=W[(i+2*j+1)%5];
	Point2d p(x*w,y*w,Num(w)), q((x+3)*z,(y-2)*z,Num(z)), u(x,y), v(x+3,y-2);
	Line2d l; Num X=x+3, Y=y-2; // second point of the line expected
	if( s==0 ) l=Line2d(p,q); else if( s==1 ) l=p*q; else if( s==2 ) { l=Line2d(LineDir::V,p); X=x; Y=y+1; } else if( s==3 ) { l=Line2d(LineDir::H,p); X=x+1; Y=y; }
	else { assume( ge( x*x+y*y, 1e-3 ) ); l= s==4 ? Line2d(p) : Line2d(Point2d(),p); X=0; Y=0; }
	check( near( evalLine(l,x,y), 0 ), "through-first" ); check( near( evalLine(l,X,Y), 0 ), "through-second" ); normalised(l);
	check( near( l.distTo(p), 0 ) , "distance" );
}
// the scale of the coefficients, or the closeness of the points, is no reason to refuse
CASE(small)
{
	static const double K[4]={1e-4,1e-6,1e-8,1e5}; int k=choose("k",4), d=choose("d",7), s=choose("s",2); Dir u=dirOf(d); Num x=in("x",-9,9), c=in("c",-5,5);
	Line2d l; bool th= s ? throws([&]{ l=Line2d( -u.y*K[k], u.x*K[k], c*K[k] ); }) : throws([&]{ l=Line2d( Point2d(x,c), Point2d(x+u.x*K[k],c+u.y*K[k]) ); });
	check( !th, "accepted" ); if( th ) return;
	auto v=l.get(); double n=std::sqrt(u.x*u.x+u.y*u.y); Num C= s ? c/n : (u.y*x-u.x*c)/n;
	check( near( sq(v[0])+sq(v[1]), 1, 1e-6 ), "unit" ); check( near( v[0]*u.x+v[1]*u.y, 0 ), "direction" ); check( near( v[2]*v[2], C*C, 1e-4 ), "offset" ); normalised(l);
}
