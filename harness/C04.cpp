#include "geom.hpp"
static Line2d mk( int d, const Num& px, const Num& py ) { Dir u=dirOf(d); return Line2d( px,py, px+u.x, py+u.y ); }
CASE(distTo)
{
	Num x=in("x",-10,10), y=in("y",-10,10), c=in("c",-5,5); int d=choose("d",7);
	Dir u=dirOf(d); double n2=u.x*u.x+u.y*u.y;
	Line2d l(-u.y,u.x,c); Point2d p(x,y);
	Num dd=l.distTo(p), e=-u.y*x+u.x*y+c;
	check( ge(dd,0), "nonneg" );
	check( near( dd*dd*n2, e*e, 1e-5 ), "formula" );
	check( near( p.distTo(l), dd ), "symmetric" );
	observe("d",dd);
}
CASE(distTo_general)
{
	Num a=in("a",-3,3), b=in("b",-3,3), c=in("c",-5,5); int k=choose("k",3);
	assume( ge(a*a+b*b,0.01) );
	Point2d p( k==0?0:k==1?3:-2, k==0?0:k==1?-1:5 );
	Line2d l(a,b,c);
	Num dd=l.distTo(p);
	check( near( dd*dd*(a*a+b*b), sq(a*p.getX()+b*p.getY()+c), 1e-4 ), "formula" );
}
CASE(orthogonal)
{
	Num x=in("x",-10,10), y=in("y",-10,10), c=in("c",-5,5); int d=choose("d",7);
	Dir u=dirOf(d);
	Line2d l(-u.y,u.x,c); Point2d p(x,y);
	Line2d o=l.getOrthogLine(p);
	auto a=l.get(), b=o.get();
	check( near( a[0]*b[0]+a[1]*b[1], 0 ), "orthogonal" );
	check( near( evalLine(o,p),0 ), "through-point" );
	check( near( b[0]*b[0]+b[1]*b[1],1 ), "unit" );
	check( And( ge( b[0],-1e-9 ), Imp( absle(b[0],1e-11), gt(b[1],0) ) ), "normalised" );
}
CASE(orthogonal_general)
{
	Num a=in("a",-3,3), b=in("b",-3,3), x=in("x",-5,5);
	assume( ge(a*a+b*b,0.01) );
	Line2d l(a,b,1); Point2d p(x,2);
	Line2d o=l.getOrthogLine(p);
	auto w=o.get();
	check( near( a*w[0]+b*w[1], 0 ), "orthogonal" );
	check( near( evalLine(o,p),0 ), "through-point" );
}
CASE(orthogonal_coord)
{
	Num v=in("v",-10,10), c=in("c",-5,5); int d=choose("d",7), g=choose("g",2);
	Dir u=dirOf(d);
	Line2d l(-u.y,u.x,c);
	bool bad= g==0? u.x==0 : u.y==0;
	auto gc= g==0? GivenCoord::X : GivenCoord::Y;
	if( bad )
	{
		check( throws([&]{ l.getCoord(gc,v); }), "getCoord-rejects" );
		check( throws([&]{ l.getPoint(gc,v); }), "getPoint-rejects" );
		check( throws([&]{ l.getOrthogLine(gc,v); }), "getOrthogLine-rejects" );
		check( throws([&]{ l.getPoints(gc,v,1.0); }), "getPoints-rejects" );
		return;
	}
	Point2d p=l.getPoint(gc,v);
	check( near( g==0? p.getX():p.getY(), v ), "given-coordinate" );
	check( near( evalLine(l,p),0 ), "on-line" );
	check( near( l.getCoord(gc,v), g==0? p.getY():p.getX() ), "getCoord" );
	Line2d o=l.getOrthogLine(gc,v);
	auto a=l.get(), b=o.get();
	check( near( a[0]*b[0]+a[1]*b[1], 0 ), "orthogonal" );
	check( near( evalLine(o,p),0 ), "through-point" );
	Num dist=in("dist",0.1,20);
	auto pp=l.getPoints(gc,v,dist);
	check( And( near( evalLine(l,pp.first),0 ), near( evalLine(l,pp.second),0 ) ), "getPoints-on-line" );
	check( And( near( d2(pp.first,p), dist*dist ), near( d2(pp.second,p), dist*dist ) ), "getPoints-distance" );
	check( near( d2(pp.first,pp.second), 4*dist*dist ), "getPoints-both-sides" );
	check( Or( lt( pp.first.getX(), pp.second.getX()+1e-9 ) , T(pp.first<pp.second) ), "getPoints-ordered" );
	obs("p1",pp.first); obs("p2",pp.second);
}
CASE(getPoints_point)
{
	Num t=in("t",-10,10), dist=in("dist",0.1,20), off=in("off",-2,2); int d=choose("d",5);
	Dir u=dirOf(d);
	Line2d l=mk(d,1,-2);
	Num px=1+t*u.x-off*u.y, py=-2+t*u.y+off*u.x;
	Point2d p(px,py);
	std::pair<Point2d,Point2d> pp;
	bool th=throws( [&]{ pp=l.getPoints(p,dist); } );
	check( Imp( absge(off,1e-3), T(th) ), "point-off-line-rejected" );
	check( Imp( absle(off,1e-11), T(!th) ), "point-on-line-accepted" );
	if( th ) return;
	assume( absle(off,1e-11) );
	check( And( near( evalLine(l,pp.first),0 ), near( evalLine(l,pp.second),0 ) ), "on-line" );
	check( And( near( d2(pp.first,p), dist*dist, 1e-5 ), near( d2(pp.second,p), dist*dist, 1e-5 ) ), "distance" );
	check( near( d2(pp.first,pp.second), 4*dist*dist, 1e-5 ), "both-sides" );
	check( pp.first<pp.second, "ordered" );
}
CASE(getPoints_general)
{
	Num a=in("a",-3,3), b=in("b",-3,3), dist=in("dist",0.1,20);
	assume( ge(a*a+b*b,0.01) );
	Line2d l(a,b,0); Point2d o;
	auto pp=l.getPoints(o,dist);
	check( And( near( a*pp.first.getX()+b*pp.first.getY(), 0, 1e-5 ), near( a*pp.second.getX()+b*pp.second.getY(), 0, 1e-5 ) ), "on-line" );
	check( And( near( d2(pp.first,o), dist*dist ), near( d2(pp.second,o), dist*dist ) ), "distance" );
	check( pp.first<pp.second, "ordered" );
}
CASE(parallel_line)
{
	Num x=in("x",-10,10), y=in("y",-10,10), c=in("c",-5,5); int d=choose("d",7);
	Dir u=dirOf(d);
	Line2d l(-u.y,u.x,c); Point2d p(x,y);
	Line2d m=l.getParallelLine(p);
	auto a=l.get(), b=m.get();
	check( And( near( a[0],b[0] ), near( a[1],b[1] ) ), "same-normal" );
	check( near( evalLine(m,p),0 ), "through-point" );
	check( m.isParallelTo(l), "parallel" );
	observe("c",b[2]);
}
CASE(parallel_lines)
{
	Num dist=in("dist",-10,10), c=in("c",-5,5), x=in("x",-10,10), y=in("y",-10,10); int d=choose("d",7);
	Dir u=dirOf(d);
	Line2d l(-u.y,u.x,c);
	auto pr=l.getParallelLines(dist);
	auto pf=getParallelLines(l,dist);
	auto a=l.get(), b=pr.first.get(), e=pr.second.get();
	check( And( near( a[0],b[0] ), near( a[1],b[1] ), near( a[0],e[0] ), near( a[1],e[1] ) ), "same-normal" );
	check( And( near( sq(b[2]-a[2]), dist*dist ), near( sq(e[2]-a[2]), dist*dist ) ), "distance" );
	check( near( b[2]+e[2], 2*a[2] ), "both-sides" );
	check( near( getParallelDistance(l,pr.first), std::abs(dist) ), "getParallelDistance" );
	check( near( getParallelDistance(pr.first,pr.second), 2*std::abs(dist) ), "getParallelDistance2" );
	check( pf.first==pr.first && pf.second==pr.second, "free" );
}
CASE(parallel_distance_general)
{
	Num a=in("a",-3,3), b=in("b",-3,3), c1=in("c1",-5,5), c2=in("c2",-5,5);
	assume( ge(a*a+b*b,0.01) );
	Line2d l(a,b,c1), m(a,b,c2);
	Num d=getParallelDistance(l,m);
	check( ge(d,0), "nonneg" );
	check( near( d*d*(a*a+b*b), sq(c1-c2), 1e-4 ), "formula" );
}
CASE(parallel_distance_rejects)
{
	Num c=in("c",-5,5); int d=choose("d",6), e=choose("e",6);
	if( d==e ) skip("same");
	Line2d l=mk(d,c,0), m=mk(e,1,1);
	check( throws([&]{ getParallelDistance(l,m); }), "rejects-non-parallel" );
}
CASE(orthog_segment)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int d=choose("d",7);
	Dir u=dirOf(d);
	Line2d l=mk(d,1,-2); Point2d p(x,y);
	assume( absge( evalLine(l,p), 1e-3 ) );
	auto s=l.getOrthogSegment(p);
	auto pp=s.getPts();
	check( nearpt( pp.second, x, y ), "ends-at-point" );
	check( near( evalLine(l,pp.first),0 ), "starts-on-line" );
	check( near( (pp.second.getX()-pp.first.getX())*u.x+(pp.second.getY()-pp.first.getY())*u.y, 0 ), "orthogonal" );
	check( near( s.length(), l.distTo(p) ), "length-is-distance" );
	obs("f",pp.first);
}
CASE(orthog_segment_reject)
{
	Num t=in("t",-10,10); int d=choose("d",5); Dir u=dirOf(d);
	Line2d l=mk(d,1,-2); Point2d p(1+t*u.x,-2+t*u.y);
	check( throws([&]{ l.getOrthogSegment(p); }), "rejects-point-on-line" );
}
CASE(rotated)
{
	Num t=in("t",-5,5), th=in("th",-3.1,3.1); int d=choose("d",5); Dir u=dirOf(d);
	Line2d l=mk(d,1,-2); Point2d p(1+t*u.x,-2+t*u.y);
	Line2d r=l.getRotatedLine(p,th);
	check( near( evalLine(r,p),0,1e-5 ), "through-point" );
	// direction turned by th
	Num c=std::cos(th), s=std::sin(th);
	auto v=r.get();
	check( near( v[0]*(c*u.x-s*u.y)+v[1]*(s*u.x+c*u.y), 0, 1e-5 ), "rotated" );
	check( near( v[0]*v[0]+v[1]*v[1],1 ), "unit" );
}
CASE(rotated_reject)
{
	Num off=in("off",-5,5); int d=choose("d",5); Dir u=dirOf(d);
	away(off,1e-3);
	Line2d l=mk(d,1,-2); Point2d p(1-off*u.y,-2+off*u.x);
	check( throws([&]{ l.getRotatedLine(p,1.0); }), "rejects-point-off-line" );
}
CASE(no_length)
{
	Num c=in("c",-5,5);
	Line2d l(1,2,c);
	check( throws([&]{ l.length(); }), "line-length-rejected" );
	check( near( l.area(),0 ), "line-area" );
}
CASE(nearly_parallel_distance)
{
	// lines accepted as parallel although their directions differ slightly: distance at the origin, whatever the signs of the coefficients
	Num e=in("e",-0.0008,0.0008), c=in("c",-5,5), g=in("g",-5,5); int d=choose("d",7); Dir u=dirOf(d);
	double n=std::sqrt(u.x*u.x+u.y*u.y);
	clearly(e,1e-7);
	Num ax=-u.y+e*u.x, ay=u.x+e*u.y;
	Line2d l(-u.y/n,u.x/n,c), m(ax/n,ay/n,g);
	if( !l.isParallelTo(m) ) { fail("accepted"); return; }
	Num r=getParallelDistance(l,m);
	check( And( ge( sq(r), sq(c-g)*0.999-1e-3 ), le( sq(r), sq(c-g)*1.001+1e-3 ) ), "value" );
	check( near( getParallelDistance(m,l), r, 1e-4 ), "symmetric" );
}
// far from the origin, at other scales
CASE(places)
{
	Place P=placeOf( 1+choose("place",3) ); int d=choose("d",7), w=choose("w",5); Dir u=dirOf(d); double n2=u.x*u.x+u.y*u.y; Num a=in("a",-9,9), x=in("x",-9,9), y=in("y",-9,9), c=3-a/2;
	Line2d l( inPlace(P,a,c), inPlace(P,a+3*u.x,c+3*u.y) ); Point2d p=inPlace(P,x,y); Num h=(x-a)*u.y-(y-c)*u.x; auto dir=[&]( const Line2d& k ) { auto v=k.get(); return near( v[0]*u.x+v[1]*u.y, 0 ); }; auto orth=[&]( const Line2d& k ) { auto v=k.get(); return near( -v[0]*u.y+v[1]*u.x, 0 ); };
	if( w==0 ) { Num e=l.distTo(p)/P.s; check( ge(e,0), "distance-sign" ); check( near( e*e*n2, h*h, 1e-4 ), "distance" ); Point2d f=fromPlace(P,l.getOrthogLine(p)*l); away(h,1e-2); auto s=l.getOrthogSegment(p).getPts(); check( And( nearpt( fromPlace(P,s.first), f, 1e-5 ), nearpt( fromPlace(P,s.second), x,y,1e-5 ) ), "orthogonal-segment" ); }
	if( w==1 ) { Line2d o=l.getOrthogLine(p); check( And( orth(o), near( evalLine(o,p), 0, 1e-5 ) ), "orthogonal" ); }
	if( w==2 ) { Line2d o=l.getParallelLine(p); check( And( dir(o), near( evalLine(o,p), 0, 1e-5 ) ), "parallel" ); Num e=getParallelDistance(l,o)/P.s; check( near( e*e*n2, h*h, 1e-4 ), "parallel-distance" ); }
	if( w==3 )
	{
		auto r=l.getParallelLines(P.s*y); Num f=evalLine(r.first,inPlace(P,a,c))/P.s, g=evalLine(r.second,inPlace(P,a,c))/P.s; check( And( dir(r.first), dir(r.second) ), "parallel-lines" ); check( And( near( f+g, 0, 1e-5 ), near( f*f, y*y, 1e-4 ) ), "parallel-lines-distance" );
	}
	if( w==4 && u.x!=0 )
	{
		Point2d q=l.getPoint(GivenCoord::X,P.x+P.s*x); check( And( near( q.getX(), P.x+P.s*x, 1e-5 ), near( evalLine(l,q), 0, 1e-5 ) ), "point" ); Num t=3; auto r=l.getPoints(GivenCoord::X,P.x+P.s*x,P.s*t); Point2d z=fromPlace(P,q), f=fromPlace(P,r.first), g=fromPlace(P,r.second);
		check( And( near( f.getX()+g.getX(), 2*z.getX(), 1e-4 ), near( f.getY()+g.getY(), 2*z.getY(), 1e-4 ) ), "points-middle" ); check( And( near( d2(f,z), 9, 1e-3 ), And( near( evalLine(l,r.first), 0, 1e-5 ), near( evalLine(l,r.second), 0, 1e-5 ) ) ), "points" );
	}
}
// points given by any homogeneous coordinates
CASE(scaled_points)
{
	static const double W[4]={-2,0.25,-0.5,16}; double z=W[choose("z",4)]; int w=choose("w",6), d=choose("d",7); Dir u=dirOf(d); double n2=u.x*u.x+u.y*u.y; Num x=in("x",-9,9), y=in("y",-9,9);
	Line2d l=mk(d,1,-2); Point2d p(x*z,y*z,Num(z)); Num h=-u.y*(x-1)+u.x*(y+2);
	if( w==0 ) { Num e=l.distTo(p); check( And( ge(e,0), near( e*e*n2, h*h, 1e-4 ) ), "distance" ); check( near( p.distTo(l), e ), "distance-2" ); }
	if( w==1 ) { Line2d o=l.getOrthogLine(p); auto v=o.get(); check( And( near( evalLine(o,x,y), 0 ), near( -u.y*v[0]+u.x*v[1], 0 ) ), "orthogonal" ); }
	if( w==2 ) { Line2d o=l.getParallelLine(p); auto v=o.get(); check( And( near( evalLine(o,x,y), 0 ), near( u.x*v[0]+u.y*v[1], 0 ) ), "parallel" ); }
	if( w==3 ) { away(h,1e-2); auto s=l.getOrthogSegment(p).getPts(); check( And( nearpt(s.second,x,y), near( evalLine(l,s.first), 0 ) ), "segment-ends" ); check( near( (s.second.getX()-s.first.getX())*u.x+(s.second.getY()-s.first.getY())*u.y, 0 ), "segment" ); }
	Num t=x; Num px=1+t*u.x, py=-2+t*u.y; Point2d q(px*z,py*z,Num(z));
	if( w==4 ) { auto r=l.getPoints(q,Num(3)); check( And( near(d2(r.first,Point2d(px,py)),9,1e-5), near(d2(r.second,Point2d(px,py)),9,1e-5), near( evalLine(l,r.first), 0, 1e-5 ), near( evalLine(l,r.second), 0, 1e-5 ) ), "points" ); }
	if( w==5 ) { Line2d r=l.getRotatedLine(q,Num(M_PI/2)); auto v=r.get(); check( And( near( evalLine(r,px,py), 0, 1e-5 ), near( -u.y*v[0]+u.x*v[1], 0 ) ), "rotated" ); }
}
// slopes near those of the axes, both ways
CASE(flat)
{
	static const double S[8]={-0.02,-1e-3,-1e-5,-1e-8,1e-8,1e-5,1e-3,0.02}; double e=S[choose("e",8)]; int g=choose("g",2), w=choose("w",5); Num v=in("v",-9,9), c=in("c",-5,5);
	// a line through (0,c) and (1,c+e), or (c,0) and (c+e,1)
	Line2d l= g==0 ? Line2d( Point2d(0,c), Point2d(1,c+e) ) : Line2d( Point2d(c,0), Point2d(c+e,1) ); auto gc= g==0 ? GivenCoord::X : GivenCoord::Y; Num o=c+e*v, X= g==0 ? v : o, Y= g==0 ? o : v; double n2=1+e*e;
	if( w==0 ) { check( near( l.getCoord(gc,v), o ), "coordinate" ); check( nearpt( l.getPoint(gc,v), X, Y ), "point" ); }
	if( w==1 ) { Line2d k=l.getOrthogLine(gc,v); auto a=k.get(); check( near( evalLine(k,X,Y), 0 ), "orthogonal-through" ); check( g==0 ? near( a[0]*e, a[1] ) : near( a[1]*e, a[0] ), "orthogonal" ); }
	if( w==2 ) { auto r=l.getPoints(gc,v,Num(2)); Num D=2/std::sqrt(n2); check( g==0 ? And( nearpt(r.first,X-D,Y-D*e,1e-5), nearpt(r.second,X+D,Y+D*e,1e-5) ) : Or( And( nearpt(r.first,X-D*e,Y-D,1e-5), nearpt(r.second,X+D*e,Y+D,1e-5) ), And( nearpt(r.second,X-D*e,Y-D,1e-5), nearpt(r.first,X+D*e,Y+D,1e-5) ) ), "points" ); }
	if( w==3 ) { Num d=l.distTo( Point2d(3,-4) ); Num h= g==0 ? -4-(c+3*e) : 3-(c-4*e); check( And( ge(d,0), near( d*d*n2, h*h, 1e-4 ) ), "distance" ); Line2d k=l.getParallelLine( Point2d(3,-4) ); auto a=k.get(); check( And( near( evalLine(k,3,-4), 0 ), g==0 ? near( a[0]+a[1]*e, 0, 1e-9 ) : near( a[0]*e+a[1], 0, 1e-9 ) ), "parallel" ); }
	if( w==4 ) { auto r=l.getParallelLines( Num(1.5) ); Num f=evalLine(r.first,X,Y), h=evalLine(r.second,X,Y); check( And( near( f+h, 0 ), near( f*f, 2.25, 1e-5 ) ), "parallel-lines" ); }
}
// any angle, more than one turn
CASE(rotated_any)
{
	int k=choose("k",17)-8, d=choose("d",5); Dir u=dirOf(d); Num t=in("t",-5,5); double th=k*0.9; Line2d l=mk(d,1,-2); Point2d p(1+t*u.x,-2+t*u.y);
	Line2d r=l.getRotatedLine(p,Num(th)); double c=std::cos(th), s=std::sin(th); auto v=r.get();
	check( near( evalLine(r,p),0,1e-5 ), "through-point" ); check( near( v[0]*(c*u.x-s*u.y)+v[1]*(s*u.x+c*u.y), 0, 1e-5 ), "rotated" ); check( near( v[0]*v[0]+v[1]*v[1],1 ), "unit" );
}
