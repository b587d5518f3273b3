#include "geom.hpp"
struct R4 { double x0,y0,x1,y1; };
static R4 at( const R4& r, int i ) { auto t=placeOf(i); return { t.x+t.s*r.x0, t.y+t.s*r.y0, t.x+t.s*r.x1, t.y+t.s*r.y1 }; }
static const R4 R0={0,-1,4,2}, R1={-2.5,0.5,-1,4};
// the last ones are the first at other places and scales
static const R4 RC[5]={ R0, R1, at(R0,1), at(R1,2), at(R0,3) };
static const Place PL[5]={ placeOf(0), placeOf(0), placeOf(1), placeOf(2), placeOf(3) };
static FRect rect( const R4& r ) { return FRect( Point2d(r.x0,r.y0), Point2d(r.x1,r.y1) ); }
static FRect rectOther( const R4& r ) { return FRect( Point2d(r.x1,r.y0), Point2d(r.x0,r.y1) ); }
static std::vector<Side> sides( const R4& r )
{
	Point2d p0(r.x0,r.y0), p1(r.x0,r.y1), p2(r.x1,r.y1), p3(r.x1,r.y0);
	return { {p0,p1},{p1,p2},{p2,p3},{p3,p0} };
}
// ---- lines
// evaluation at the corners decides what is crossed
static void lineVerdict( const R4& q, const Line2d& l, Num a, Num b, Num c, double m=1 )
{
	Num f[4]; double cx[4]={q.x0,q.x0,q.x1,q.x1}, cy[4]={q.y0,q.y1,q.y1,q.y0};
	for( int i=0;i<4;i++ ) { f[i]=a*cx[i]+b*cy[i]+c; away(f[i],1e-2*m); }
	std::vector<Point2d> e;
	for( int i=0;i<4;i++ )
	{
		int j=(i+1)%4;
		bool si=branch( gt(f[i],0) ), sj=branch( gt(f[j],0) );
		if( si==sj ) continue;
		Num t=f[i]/(f[i]-f[j]);
		e.push_back( Point2d( cx[i]+t*(cx[j]-cx[i]), cy[i]+t*(cy[j]-cy[i]) ) );
	}
	FRect r=rect(q);
	auto x=l.intersects(r), y=r.intersects(l);
	check( x()==(e.size()>0), "reported" );
	samepts( x.get(), e, "line-rect" ); samepts( y.get(), e, "rect-line" );
}
CASE(line)
{
	int k=choose("k",5), d=choose("d",7); Dir u=dirOf(d); auto P=PL[k]; Num c=P.s*in("c",-9,9)+u.y*P.x-u.x*P.y;
	lineVerdict( RC[k], Line2d(-u.y,u.x,c), -u.y, u.x, c, P.s );
}
CASE(line_turning)
{
	int k=choose("k",2), o=choose("o",3), z=choose("z",2); static const double O[3][2]={{1,0.5},{-1.6,2},{6,3}};
	Num m=in("m",-3,3); clearly(m,1e-2);
	Num a= z? m : Num(1), b= z? Num(1) : m;
	Num c= -(a*O[o][0]+b*O[o][1]);
	lineVerdict( RC[k], Line2d(a,b,c), a, b, c );
}
CASE(line_corner)
{
	// through a corner: one point, or two when it goes on through the rectangle
	int k=choose("k",2), i=choose("i",4); const R4& q=RC[k];
	double cx[4]={q.x0,q.x0,q.x1,q.x1}, cy[4]={q.y0,q.y1,q.y1,q.y0};
	Num m=in("m",-4,4); clearly(m,1e-2);
	Line2d l( m, -1, cy[i]-m*cx[i] );
	// height of the line at the opposite vertical side
	double X= q.x0+q.x1-cx[i], Y=q.y0+q.y1-cy[i];
	Num h=cy[i]+m*(X-cx[i]);
	away( h-Y, 1e-2 );
	bool up= branch( gt( (h-cy[i])*(Y-cy[i]), 0 ) ), hor= branch( eq(m,0) );
	std::vector<Point2d> e{ Point2d(cx[i],cy[i]) };
	if( hor ) e.push_back( Point2d(X,cy[i]) );
	else if( up ) { if( branch( lt( (h-cy[i])*(Y-cy[i]), (Y-cy[i])*(Y-cy[i]) ) ) ) e.push_back( Point2d(X,h) ); else e.push_back( Point2d( cx[i]+(Y-cy[i])/m, Y ) ); }
	samepts( l.intersects(rect(q)).get(), e, "corner" );
}
// ---- segments
template<class S> static void segVerdict( const R4& q, const S& s, const Point2d& a, const Point2d& b, double m=1e-2 )
{
	std::vector<Point2d> e;
	for( auto& g:sides(q) )
	{
		Num f1=cross(a,b,g.a), f2=cross(a,b,g.b), f3=cross(g.a,g.b,a), f4=cross(g.a,g.b,b);
		away(f1,m); away(f2,m); away(f3,m); away(f4,m);
		bool c= branch( gt(f1,0) )!=branch( gt(f2,0) ), d= branch( gt(f3,0) )!=branch( gt(f4,0) );
		if( !c || !d ) continue;
		Num t=f3/(f3-f4);
		e.push_back( Point2d( a.getX()+t*(b.getX()-a.getX()), a.getY()+t*(b.getY()-a.getY()) ) );
	}
	FRect r=rect(q);
	samepts( s.intersects(r).get(), e, "seg-rect" ); samepts( r.intersects(s).get(), e, "rect-seg" );
	check( s.intersects(r)()==(e.size()>0), "reported" );
}
CASE(segment_moving)
{
	int k=choose("k",5), d=choose("d",TH(4,6)), w=choose("w",2); static const double E[6][2]={{2,1},{5,-4},{1.2,6},{0.5,-0.5},{-9,2},{3,0.6}};
	if( k>1 && d>TH(1,3) ) return;
	auto P=PL[k]; Num x=P.x+P.s*in("x",-6,6), y=P.y+P.s*( k<2 ? in("y",-6,6) : Num(-4.25+2*choose("h",TH(4,5))) );
	Point2d a(x,y), b(x+P.s*E[d][0],y+P.s*E[d][1]);
	if( w ) segVerdict( RC[k], OSegment(b,a), a, b, 1e-2*P.s*P.s ); else segVerdict( RC[k], Segment(a,b), a, b, 1e-2*P.s*P.s );
}
CASE(segment_axis)
{
	int k=choose("k",2), w=choose("w",2); const R4& q=RC[k]; Num x=in("x",-6,6), y=in("y",-6,6), L=in("L",0.1,9);
	away(x-q.x0,1e-2); away(x-q.x1,1e-2); away(y-q.y0,1e-2); away(y-q.y1,1e-2);
	Num ex= w? x : x+L, ey= w? y+L : y;
	away(ex-q.x0,1e-2); away(ex-q.x1,1e-2); away(ey-q.y0,1e-2); away(ey-q.y1,1e-2);
	Segment s( Point2d(x,y), Point2d(ex,ey) ); std::vector<Point2d> e;
	if( !w ) { if( branch( And( gt(y,q.y0), lt(y,q.y1) ) ) ) for( double X:{q.x0,q.x1} ) if( branch( And( lt(x,X), gt(ex,X) ) ) ) e.push_back( Point2d(X,y) ); }
	else if( branch( And( gt(x,q.x0), lt(x,q.x1) ) ) ) for( double Y:{q.y0,q.y1} ) if( branch( And( lt(y,Y), gt(ey,Y) ) ) ) e.push_back( Point2d(x,Y) );
	FRect r=rect(q);
	samepts( s.intersects(r).get(), e, "seg-rect" ); samepts( r.intersects(s).get(), e, "rect-seg" );
}
CASE(segment_turning)
{
	int k=choose("k",2), e=choose("e",3), z=choose("z",2); static const double E[3][2]={{1,0.5},{-2,3},{6,5}}; static const double F[2]={-3,4.5};
	Num x=in("x",-6,6); Point2d a(x,F[z]), b(E[e][0],E[e][1]);
	clearly( x-E[e][0], 1e-2 );
	segVerdict( RC[k], Segment(a,b), a, b );
}
CASE(segment_touching)
{
	// one end on a side, at a corner, or the segment along a side
	int k=choose("k",2), w=choose("w",4); const R4& q=RC[k]; FRect r=rect(q);
	Num t=in("t",0.05,0.95), L=in("L",0.1,0.5);
	Num x=q.x0+t*(q.x1-q.x0), y=q.y0+t*(q.y1-q.y0);
	std::vector<Point2d> e; Segment s;
	if( w==0 ) { s=Segment( Point2d(q.x0,y), Point2d(q.x0-L,y+1) ); e={ Point2d(q.x0,y) }; }
	if( w==1 ) { s=Segment( Point2d(x,q.y1), Point2d(x+L,q.y1+1) ); e={ Point2d(x,q.y1) }; }
	if( w==2 ) { s=Segment( Point2d(q.x1,q.y1), Point2d(q.x1+L,q.y1+1) ); e={ Point2d(q.x1,q.y1) }; }
	if( w==3 ) { s=Segment( Point2d(q.x0-L,q.y0), Point2d(q.x1+t,q.y0) ); e={ Point2d(q.x0,q.y0), Point2d(q.x1,q.y0) }; }
	samepts( s.intersects(r).get(), e, "touch" ); samepts( r.intersects(s).get(), e, "touch" );
}
// ---- circles
static void circleVerdict( const R4& q, Num x, Num y, Num R, double s=1 )
{
	Point2d c(x,y); unsigned n=0;
	for( auto& g:sides(q) )
	{
		bool vert= g.a.getX()==g.b.getX();
		Num da=d2(g.a,c)-R*R, db=d2(g.b,c)-R*R, o= vert? g.a.getX()-x : g.a.getY()-y;
		Num lo= vert? g.a.getY() : g.a.getX(), hi= vert? g.b.getY() : g.b.getX(), m= vert? y : x;
		if( branch( gt(lo,hi) ) ) std::swap(lo,hi);
		away(da,1e-2*s*s); away(db,1e-2*s*s); away( o*o-R*R, 1e-2*s*s );
		bool ia=branch( lt(da,0) ), ib=branch( lt(db,0) );
		if( ia!=ib ) n++;
		else if( !ia && branch( And( lt(o*o,R*R), gt(m,lo), lt(m,hi) ) ) ) n+=2;
	}
	FRect r=rect(q); Circle k(c,R);
	auto v=k.intersects(r), w=r.intersects(k);
	check( v.size()==n, "count" ); check( w.size()==n, "count-symmetric" ); check( v()==(n>0), "reported" );
	auto a=v.get(), b=w.get(); std::vector<Fm> f;
	for( auto& p:a )
	{
		f.push_back( near( d2(p,c), R*R, 1e-4*(s>1?s*s:s) ) );
		f.push_back( And( ge(p.getX(),q.x0-1e-5), le(p.getX(),q.x1+1e-5), ge(p.getY(),q.y0-1e-5), le(p.getY(),q.y1+1e-5) ) );
		f.push_back( Or( near(p.getX(),q.x0,1e-5), near(p.getX(),q.x1,1e-5), near(p.getY(),q.y0,1e-5), near(p.getY(),q.y1,1e-5) ) );
	}
	for( unsigned i=0;i<a.size();i++ ) { if( i<b.size() ) f.push_back( nearpt(a[i],b[i]) ); if( i ) f.push_back( a[i-1]<a[i] ? T(true) : T(false) ); }
	check( all(f), "points" );
}
CASE(circle_growing)
{
	int k=choose("k",2), c=choose("c",5); static const double C[5][2]={{1,0.5},{2,0.75},{-1.5,1},{5,3},{-3,-2}};
	circleVerdict( RC[k], C[c][0], C[c][1], in("r",0.1,7) );
}
CASE(circle_moving)
{
	int k=choose("k",5), z=choose("z",TH(2,4)), g=choose("g",2); auto P=PL[k]; static const double Z[4]={0.5,2.5,-1.75,4.5}; static const double R[2]={1,2.5};
	Num x=in("x",-6,8);
	if( k>1 && z!=g ) return;
	Num c=x, e=Z[z]; if( choose("v",2) ) std::swap(c,e);
	circleVerdict( RC[k], P.x+P.s*c, P.y+P.s*e, R[g]*P.s, P.s );
}
CASE(circle_corner)
{
	// through a corner, center outside on a diagonal direction, or inside
	int k=choose("k",2), i=choose("i",4), w=choose("w",2); const R4& q=RC[k]; Num R=in("R",0.1,0.45);
	double cx[4]={q.x0,q.x0,q.x1,q.x1}, cy[4]={q.y0,q.y1,q.y1,q.y0};
	double sx= cx[i]==q.x0? 1:-1, sy= cy[i]==q.y0? 1:-1;
	double s= w? 1 : -1;
	Circle c( Point2d( cx[i]+s*sx*0.6*R, cy[i]+s*sy*0.8*R ), R );
	auto v=rect(q).intersects(c).get();
	std::vector<Point2d> e{ Point2d(cx[i],cy[i]) };
	if( w ) { e.push_back( Point2d( cx[i]+sx*1.2*R, cy[i] ) ); e.push_back( Point2d( cx[i], cy[i]+sy*1.6*R ) ); }
	samepts( v, e, "corner", 1e-4 );
}
// ---- rectangles
CASE(rect_general)
{
	int k=choose("k",TH(4,5)), z=choose("z",2); const R4& q=RC[k]; auto P=PL[k]; if( k>1 && z ) return;
	Num a=P.x+P.s*in("a",-6,6), b=P.y+P.s*in("b",-6,6), w=P.s*in("w",0.1,9), h=P.s*in("h",0.1,9);
	Num X[2]={a,a+w}, Y[2]={b,b+h};
	double QX[2]={q.x0,q.x1}, QY[2]={q.y0,q.y1};
	for( auto& v:X ) for( double p:QX ) away(v-p,1e-2*P.s);
	for( auto& v:Y ) for( double p:QY ) away(v-p,1e-2*P.s);
	bool inx[2], iny[2], ovx[2], ovy[2]; // my abscissae within his, his within mine
	for( int i=0;i<2;i++ )
	{
		inx[i]=branch( And( gt(X[i],q.x0), lt(X[i],q.x1) ) ); iny[i]=branch( And( gt(Y[i],q.y0), lt(Y[i],q.y1) ) );
		ovx[i]=branch( And( lt(X[0],QX[i]), gt(X[1],QX[i]) ) ); ovy[i]=branch( And( lt(Y[0],QY[i]), gt(Y[1],QY[i]) ) );
	}
	std::vector<Point2d> e;
	for( int i=0;i<2;i++ ) for( int j=0;j<2;j++ )
	{
		if( inx[i] && ovy[j] ) e.push_back( Point2d(X[i],QY[j]) );
		if( iny[i] && ovx[j] ) e.push_back( Point2d(QX[j],Y[i]) );
	}
	FRect r= z? FRect( Point2d(X[1],Y[0]), Point2d(X[0],Y[1]) ) : FRect( Point2d(X[0],Y[0]), Point2d(X[1],Y[1]) ), o=rect(q);
	auto v=r.intersects(o), u=o.intersects(r);
	samepts( v.get(), e, "rects" ); samepts( u.get(), e, "rects-symmetric" );
	check( v()==(e.size()>0), "reported" );
}
CASE(rect_sharing)
{
	// part of a side in common: the ends of the common part and what else is crossed
	int w=choose("w",4); Num a=in("a",0.1,0.9), b=in("b",1.1,2), c=in("c",0.2,3);
	FRect o( Point2d(0,0), Point2d(4,3) ), r; std::vector<Point2d> e;
	if( w==0 ) { r=FRect( Point2d(4,a), Point2d(4+c,a+b) ); e={ Point2d(4,a), Point2d(4,a+b) }; }       // against the right side
	if( w==1 ) { r=FRect( Point2d(4,-a), Point2d(4+c,b) ); e={ Point2d(4,0), Point2d(4,b) }; }           // against it, overflowing
	if( w==2 ) { r=FRect( Point2d(a,0), Point2d(a+b,c/2) ); e={ Point2d(a,0), Point2d(a+b,0) }; }        // inside, on the bottom side
	if( w==3 ) { r=FRect( Point2d(4,3), Point2d(4+a,3+b) ); e={ Point2d(4,3) }; }                        // one corner
	if( w==2 ) away(c/2-3,1e-2);
	samepts( r.intersects(o).get(), e, "shared" ); samepts( o.intersects(r).get(), e, "shared-symmetric" );
}
CASE(rect_itself)
{
	Num a=in("a",-6,6), b=in("b",-6,6), w=in("w",0.1,9), h=in("h",0.1,9);
	FRect r( Point2d(a,b), Point2d(a+w,b+h) ), s( Point2d(a+w,b), Point2d(a,b+h) );
	check( !r.intersects(s)() && r.intersects(s).size()==0, "none" );
}
// a line carrying one of the sides meets the rectangle at the two ends of that side, and on lines through one corner only, at that corner
CASE(line_side)
{
	int i=choose("i",4), p=choose("p",4), w=choose("w",3); auto P=placeOf(p);
	Num h=in("h",0.5,6); R4 q0=at( R4{-2.5,0.5,-1,4}, p ); Num Y1=P.y+P.s*(h+Num(0.5));
	Num x0=q0.x0, x1=q0.x1, y0=q0.y0, y1=Y1;
	Num cx[4]={x0,x0,x1,x1}, cy[4]={y0,y1,y1,y0}; int j=(i+1)%4;
	Point2d a(cx[i],cy[i]), b(cx[j],cy[j]); FRect r( Point2d(x0,y0), Point2d(x1,y1) );
	Line2d l = w==0 ? Line2d(a,b) : i%2==0 ? ( w==1 ? Line2d(LineDir::V,cx[i]) : Line2d(Num(1),Num(0),-cx[i]) ) : ( w==1 ? Line2d(LineDir::H,cy[i]) : Line2d(Num(0),Num(1),-cy[i]) );
	std::vector<Point2d> e{a,b};
	samepts( l.intersects(r).get(), e, "line-rect" ); samepts( r.intersects(l).get(), e, "rect-line" );
	check( l.intersects(r)(), "reported" );
}
