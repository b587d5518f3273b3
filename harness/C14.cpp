#include "geom.hpp"
static const double ON[5][2]={{0,1},{0.6,0.8},{-0.8,0.6},{0.28,0.96},{-0.6,0.8}};
CASE(line_circle)
{
	Num x=in("x",-5,5), y=in("y",-5,5), r=in("r",0.05,6), c=in("c",-5,5); int d=choose("d",7), w=choose("w",3); Dir u=dirOf(d);
	double n2=u.x*u.x+u.y*u.y;
	Line2d l(-u.y,u.x,c); Circle k( Point2d(x,y), r );
	Num e=-u.y*x+u.x*y+c;
	auto go=[&]( const auto& q )
	{
		check( Imp( lt( e*e, r*r*n2-1e-3 ), T(q()) ), "secant-reported" );
		check( Imp( gt( e*e, r*r*n2+1e-3 ), T(!q()) ), "outside-not-reported" );
		check( q.size()== (q()?2u:0u), "size" );
		if( !q() ) { check( throws([&]{ q.get(); }), "get-throws" ); return; }
		auto p=q.get();
		check( And( near( evalLine(l,p.first),0,1e-5 ), near( evalLine(l,p.second),0,1e-5 ) ), "on-line" );
		check( And( near( d2(p.first,Point2d(x,y)), r*r, 1e-4 ), near( d2(p.second,Point2d(x,y)), r*r, 1e-4 ) ), "on-circle" );
		assume( lt( e*e, r*r*n2-1e-3 ) );
		check( p.first<p.second, "ordered" );
		// both ends of the chord: distance between them
		check( near( d2(p.first,p.second)*n2, 4*(r*r*n2-e*e), 1e-3 ), "chord" );
		obs("p",p.first); obs("q",p.second);
	};
	if( w==0 ) go( l.intersects(k) ); else if( w==1 ) go( k.intersects(l) ); else go( l.intersects( Point2d(x,y), r ) );
}
// large and small circles far from the origin
CASE(line_circle_places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",5), w=choose("w",3); Dir u=dirOf(d);
	Num x=in("x",-5,5), y=in("y",-5,5), r=in("r",0.05,6), c=in("c",-5,5);
	Num cx=P.x+P.s*x, cy=P.y+P.s*y; Line2d l(-u.y,u.x,P.s*c+u.y*P.x-u.x*P.y); Circle k( Point2d(cx,cy), P.s*r );
	Num e=-u.y*x+u.x*y+c;
	auto go=[&]( const auto& q )
	{
		check( Imp( lt( e*e, r*r-1e-3 ), T(q()) ), "secant-reported" );
		check( Imp( gt( e*e, r*r+1e-3 ), T(!q()) ), "outside-not-reported" );
		if( !q() ) return;
		assume( lt( e*e, r*r-1e-3 ) );
		auto p=q.get(); std::vector<Fm> f;
		for( auto& z:{p.first,p.second} ) { Point2d v( (z.getX()-P.x)/P.s, (z.getY()-P.y)/P.s ); f.push_back( And( near( -u.y*v.getX()+u.x*v.getY()+c,0,1e-5 ), near( d2(v,Point2d(x,y)), r*r, 1e-4 ) ) ); }
		check( all(f), "on-both" ); check( p.first<p.second, "ordered" ); check( near( d2(p.first,p.second)/(P.s*P.s), 4*(r*r-e*e), 1e-3 ), "chord" );
	};
	if( w==0 ) go( l.intersects(k) ); else if( w==1 ) go( k.intersects(l) ); else go( l.intersects( Point2d(cx,cy), P.s*r ) );
}
CASE(segment_places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",TH(3,5)), k=choose("k",3), o=choose("o",2); Dir u=dirOf(d);
	Num R=in("R",0.2,5), s=in("s",-8,8), t=s+in("L",0.05,12), q=R*ON[k][0], h=R*ON[k][1];
	away(s-h,1e-3); away(s+h,1e-3); away(t-h,1e-3); away(t+h,1e-3);
	auto at=[&]( Num z ) { return Point2d( P.x+P.s*(1+z*u.x-q*u.y), P.y+P.s*(-2+z*u.y+q*u.x) ); };
	Circle c( Point2d(P.x+P.s,P.y-2*P.s), P.s*R ); Point2d p1=at(-h), p2=at(h);
	bool e1= branch( And( le(s,-h), ge(t,-h) ) ), e2= branch( And( le(s,h), ge(t,h) ) ); unsigned n=(e1?1:0)+(e2?1:0);
	auto go=[&]( const auto& seg )
	{
		auto v=seg.intersects(c).get(), w=c.intersects(seg).get();
		check( v.size()==n && w.size()==n, "count" ); if( v.size()!=n || w.size()!=n ) return;
		std::vector<Fm> f; for( auto& p:v ) f.push_back( Or( e1? nearpt(p,p1,1e-4) : T(false), e2? nearpt(p,p2,1e-4) : T(false) ) );
		if( n==2 ) f.push_back( ge( d2(v[0],v[1]), 2*h*h*P.s*P.s ) );
		check( all(f), "points" );
	};
	if( o ) go( OSegment( at(t), at(s) ) ); else go( Segment( at(s), at(t) ) );
}
CASE(line_general)
{
	Num a=in("a",-3,3), b=in("b",-3,3), c=in("c",-5,5); int k=choose("k",3); static const double K[3][3]={{0,0,2},{3,-1,1},{-2,4,5}};
	assume( ge(a*a+b*b,0.04) );
	Line2d l(a,b,c); Point2d o(K[k][0],K[k][1]); Circle q(o,K[k][2]);
	Num e=a*K[k][0]+b*K[k][1]+c, m=(a*a+b*b)*K[k][2]*K[k][2];
	auto r=l.intersects(q);
	check( Imp( lt( e*e, m-1e-2 ), T(r()) ), "secant-reported" );
	check( Imp( gt( e*e, m+1e-2 ), T(!r()) ), "outside-not-reported" );
}
// segment of concrete direction: ends at abscissae s and s+L along the chord line whose half chord is h
static void segcase( bool oriented, bool edge )
{
	int d=choose("d",5), k=choose("k",5); Dir u=dirOf(d);
	Num R=in("R",0.2,5), s, t;
	Num o=R*ON[k][0], h=R*ON[k][1];
	if( !edge )
	{
		s=in("s",-8,8); t=s+in("L",0.05,12);
		away(s-h,1e-3); away(s+h,1e-3); away(t-h,1e-3); away(t+h,1e-3);
	}
	else
	{
		int e=choose("e",4); Num L=in("L",0.05,12);
		s= e==0? -h : e==1? h : e==2? -h-L : h-L; t=s+L;
		if( e==0 || e==1 ) { away(t-h,1e-3); away(t+h,1e-3); } else { away(s-h,1e-3); away(s+h,1e-3); }
	}
	Point2d c(1,-2);
	auto at=[&]( Num q ) { return Point2d( 1+q*u.x-o*u.y, -2+q*u.y+o*u.x ); };
	Circle cir(c,R);
	bool e1= branch( And( le(s,-h), ge(t,-h) ) ), e2= branch( And( le(s,h), ge(t,h) ) );
	auto go=[&]( const auto& seg )
	{
		auto r=seg.intersects(cir); auto r2=cir.intersects(seg);
		unsigned n=(e1?1:0)+(e2?1:0);
		check( r.size()==n, "count" ); check( r2.size()==n, "count-symmetric" );
		check( r()==(n>0), "reported" );
		auto v=r.get(); auto v2=r2.get();
		if( v.size()!=n || v2.size()!=n ) return;
		Point2d p1=at(-h), p2=at(h);
		std::vector<Fm> f;
		for( auto& p:v ) f.push_back( Or( e1? nearpt(p,p1,1e-5) : T(false), e2? nearpt(p,p2,1e-5) : T(false) ) );
		if( n==2 ) { f.push_back( ge( d2(v[0],v[1]), 2*h*h ) ); check( v[0]<v[1], "ordered" ); }
		check( all(f), "points" );
		for( unsigned i=0;i<n;i++ ) check( nearpt(v[i],v2[i]), "same-points" );
	};
	if( oriented ) go( choose("rev",2)? OSegment( at(t), at(s) ) : OSegment( at(s), at(t) ) ); else go( Segment( at(s), at(t) ) );
}
CASE(segment) { segcase(false,false); }
CASE(osegment) { segcase(true,false); }
CASE(segment_touching) { segcase(false,true); }
CASE(osegment_touching) { segcase(true,true); }
CASE(segment_missing)
{
	// supporting line away from the circle
	int d=choose("d",5); Dir u=dirOf(d); Num R=in("R",0.2,5), g=in("g",0.001,3), s=in("s",-8,8), L=in("L",0.05,12);
	Num o=R+g;
	Segment q( Point2d(1+s*u.x-o*u.y,-2+s*u.y+o*u.x), Point2d(1+(s+L)*u.x-o*u.y,-2+(s+L)*u.y+o*u.x) );
	Circle c( Point2d(1,-2), R );
	check( !q.intersects(c)(), "none" ); check( c.intersects(q).size()==0, "none" );
}
CASE(segment_general)
{
	// one symbolic end, one concrete, concrete circles
	int k=choose("k",3), e=choose("e",3); static const double K[3][3]={{0,0,2},{3,-1,1},{-2,2,3}}; static const double E[3][2]={{0.5,0.5},{4,4},{-3,-2}};
	Num x=in("x",-6,6); static const double Y[3]={-4.5,0.25,3.5}; int z=choose("z",TH(2,3));
	Point2d a(x,Y[z]), b(E[e][0],E[e][1]), o(K[k][0],K[k][1]); double R=K[k][2];
	clearly( x-E[e][0], 1e-2 );
	Segment s(a,b); Circle c(o,R);
	auto r=s.intersects(c);
	Num da=d2(a,o)-R*R; double dx=E[e][0]-K[k][0], dy=E[e][1]-K[k][1], db=dx*dx+dy*dy-R*R;
	away(da,1e-2);
	Num ux=b.getX()-a.getX(), uy=b.getY()-a.getY(), n2=ux*ux+uy*uy;
	Num cr=(o.getY()-a.getY())*ux-(o.getX()-a.getX())*uy, pr=(o.getX()-a.getX())*ux+(o.getY()-a.getY())*uy;
	Num g=cr*cr-R*R*n2;
	Fm mid=And( gt(pr,0), lt(pr,n2) );
	if( db<0 )
	{
		check( Imp( lt(da,0), T(r.size()==0) ), "both-inside" );
		check( Imp( gt(da,0), T(r.size()==1) ), "one-inside" );
	}
	else
	{
		check( Imp( lt(da,0), T(r.size()==1) ), "one-inside" );
		check( Imp( And( gt(da,0), mid, lt(g,-1e-2) ), T(r.size()==2) ), "through" );
		check( Imp( And( gt(da,0), Or( Not(mid), gt(g,1e-2) ) ), T(r.size()==0) ), "aside" );
	}
	for( auto& p:r.get() )
	{
		check( near( d2(p,o), R*R, 1e-4 ), "on-circle" );
		check( near( cross(a,b,p), 0, 1e-4 ), "on-line" );
		Num t=(p.getX()-a.getX())*ux+(p.getY()-a.getY())*uy;
		check( And( ge(t,-1e-3), le(t,n2+1e-3) ), "between" );
	}
}
CASE(chord)
{
	// both ends on the circle
	static const double U[5][2]={{1,0},{0.6,0.8},{-0.28,0.96},{-0.8,-0.6},{0,-1}}; int i=choose("i",5), j=choose("j",5), o=choose("o",2); if( i==j ) return; Num x=in("x",-9,9), r=in("r",0.1,9);
	Point2d a( x+r*U[i][0], 3+r*U[i][1] ), b( x+r*U[j][0], 3+r*U[j][1] ); Circle c( Point2d(x,3), r ); auto v= o? OSegment(a,b).intersects(c).get() : Segment(a,b).intersects(c).get();
	check( v.size()==2, "count" ); if( v.size()==2 ) { check( Or( And( nearpt(v[0],a,1e-5), nearpt(v[1],b,1e-5) ), And( nearpt(v[0],b,1e-5), nearpt(v[1],a,1e-5) ) ), "ends" ); }
	check( c.intersects(Segment(a,b)).size()==2, "circle-count" );
}
