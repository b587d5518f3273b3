#include "geom.hpp"
template<class P,class X> static void both( const P& p, const X& x, const Pts& e, const std::string& w )
{
	auto a=p.intersects(x), b=x.intersects(p);
	check( a()==(e.size()>0), w+"-reported" ); check( b()==(e.size()>0), w+"-reported-back" );
	check( a.size()==e.size() && b.size()==e.size(), w+"-size" );
	samepts( a.get(), e, w ); samepts( b.get(), e, w+"-back" );
}
template<class X> static void poly( const Pts& p, bool closed, const X& x, const Pts& e, const std::string& w )
{ if( closed ) both( CPolyline(p), x, e, w ); else both( OPolyline(p), x, e, w ); }
CASE(line)
{
	int k=choose("k",4), d=choose("d",TH(4,7)), o=choose("open",2); Dir u=dirOf(d+ (d>1?1:0) > 6 ? 6 : d+(d>1?1:0)); Num c=in("c",-9,9);
	Pts p=shape(k), e; for( auto& s:sidesOf(p,!o) ) crossingLine( -u.y,u.x,c, s, e );
	poly( p, !o, Line2d(-u.y,u.x,c), e, "line" );
}
CASE(line_vertex_moving)
{
	int o=choose("open",2), i=choose("i",3), d=choose("d",2); Num x=in("x",-4,6), y=in("y",-4,6); Dir u= d? Dir{1,-3} : Dir{0.6,0.8};
	Pts p=shape(1); p[i]=Point2d(x,y); for( int j=0;j<4;j++ ) if( j!=i ) assume( ge( d2(p[j],p[i]),0.04 ) );
	Pts e; for( auto& s:sidesOf(p,!o) ) { clearly( s.a.getX()-s.b.getX(),1e-2 ); clearly( s.a.getY()-s.b.getY(),1e-2 ); Num n=u.x*(s.b.getY()-s.a.getY())-u.y*(s.b.getX()-s.a.getX()); away(n,0.1); crossingLine( -u.y,u.x,Num(-0.7), s, e ); }
	poly( p, !o, Line2d(-u.y,u.x,-0.7), e, "line" );
}
CASE(segment)
{
	int k=choose("k",TH(2,4)), o=choose("open",2), d=choose("d",2); static const double E[2][2]={{5,2},{-0.5,1.5}};
	static const double Y[5]={-0.45,1.15,-1.6,2.3,0.65};
	Num x=in("x",-6,6), y= TH(0,1)? in("y",-6,6) : Num(Y[choose("y",5)]); Point2d a(x,y), b(x+E[d][0],y+E[d][1]);
	Pts p=shape(k+(k?1:0)>3?3:k+(k?1:0)), e; for( auto& s:sidesOf(p,!o) ) crossing( a,b,s.a,s.b,e );
	poly( p, !o, Segment(a,b), e, "seg" );
}
CASE(osegment)
{
	int k=choose("k",2), o=choose("open",2); Num x=in("x",-6,6); Point2d a(x,-2.5), b(1.5,4.5);
	clearly( x-1.5,1e-2 );
	Pts p=shape(k), e; for( auto& s:sidesOf(p,!o) ) crossing( a,b,s.a,s.b,e );
	poly( p, !o, OSegment(b,a), e, "oseg" );
}
CASE(circle)
{
	int k=choose("k",TH(3,4)), o=choose("open",2), c=choose("c",TH(2,3)); static const double C[3][2]={{1,0.5},{3.5,2.5},{-2,1}};
	Num R=in("r",0.2,TH(4,6)); Point2d z(C[c][0],C[c][1]); Pts p=shape(k); unsigned n=0; auto S=sidesOf(p,!o);
	for( auto& s:S ) n+=crossingCircle(z,R,s);
	auto go=[&]( const auto& pl )
	{
		Circle q(z,R); auto a=pl.intersects(q), b=q.intersects(pl);
		check( a.size()==n && b.size()==n, "circle-size" ); check( a()==(n>0) && b()==(n>0), "circle-reported" );
		auto v=a.get(), w=b.get(); std::vector<Fm> f; if( v.size()!=w.size() ) return;
		for( unsigned i=0;i<v.size();i++ ) { f.push_back( near( d2(v[i],z),R*R,1e-4 ) ); f.push_back( onSides(v[i],S) ); f.push_back( nearpt(v[i],w[i]) ); if( i ) f.push_back( v[i-1]<v[i] ? T(true):T(false) ); }
		check( all(f), "circle-points" );
	};
	if( o ) go( OPolyline(p) ); else go( CPolyline(p) );
}
CASE(circle_moving)
{
	int k=choose("k",2), o=choose("open",2), z=choose("z",2); Num x=in("x",-3,6); Point2d c( x, z?0.75:2.4 ); double R= z? 1.1 : 2;
	Pts p=shape(k*2); unsigned n=0; auto S=sidesOf(p,!o); for( auto& s:S ) n+=crossingCircle(c,R,s);
	Circle q(c,R);
	size_t s1= o? OPolyline(p).intersects(q).size() : CPolyline(p).intersects(q).size(), s2= o? q.intersects(OPolyline(p)).size() : q.intersects(CPolyline(p)).size();
	check( s1==n && s2==n, "circle-size" );
}
CASE(rect)
{
	int k=choose("k",TH(2,4)), o=choose("open",2), z=choose("z",2); double W= z? 2.5 : 0.7, H= z? 3.1 : 6;
	static const double Y[4]={-0.35,1.15,-2.6,2.3};
	Num x=in("x",-4,5), y= TH(0,1)? in("y",-4,5) : Num(Y[choose("y",4)]);
	Pts p=shape(k==0?0:k==1?3:k), e; FRect r( Point2d(x,y), Point2d(x+W,y+H) ); Pts q{ Point2d(x,y), Point2d(x,y+H), Point2d(x+W,y+H), Point2d(x+W,y) };
	for( auto& s:sidesOf(p,!o) ) for( auto& t:sidesOf(q,true) )
	{
		bool par= s.a.getX()==s.b.getX() ? t.a.getX()==t.b.getX() : s.a.getY()==s.b.getY() ? t.a.getY()==t.b.getY() : false;
		if( par ) { away( s.a.getX()==s.b.getX() ? s.a.getX()-t.a.getX() : s.a.getY()-t.a.getY(), 1e-2 ); continue; }
		crossing( s.a,s.b,t.a,t.b,e );
	}
	poly( p, !o, r, e, "rect" );
}
CASE(polyline)
{
	int k=choose("k",2), ow=choose("open",3), o= ow==1, o2= ow==2; static const double Y[4]={1.15,-2.6,2.3,-0.35};
	Num x=in("x",-5,5), y= TH(0,1)? in("y",-5,5) : Num(Y[choose("y",2)]);
	Pts p=shape(1), q=moved( k? shape(0) : Pts{ Point2d(0,0), Point2d(3,2), Point2d(2.5,-2) }, x, y ), e;
	auto S=sidesOf(p,!o), U=sidesOf(q,!o2);
	for( auto& s:S ) for( auto& t:U ) crossing( s.a,s.b,t.a,t.b,e );
	if( o2 ) poly( p, !o, OPolyline(q), e, "poly" ); else poly( p, !o, CPolyline(q), e, "poly" );
}
CASE(closing_segment)
{
	// crossed only by what joins the last point to the first
	Num t=in("t",0.3,0.7), L=in("L",0.01,0.1); int k=choose("k",4); Pts p=shape(k); size_t n=p.size();
	Point2d m=lerp(p[n-1],p[0],t); Num nx=p[0].getY()-p[n-1].getY(), ny=p[n-1].getX()-p[0].getX();
	Segment s( Point2d(m.getX()-L*nx/8,m.getY()-L*ny/8), Point2d(m.getX()+L*nx/8,m.getY()+L*ny/8) );
	check( !OPolyline(p).intersects(s)(), "open" );
	samepts( CPolyline(p).intersects(s).get(), Pts{m}, "closed" );
}
// many vertices, other places
CASE(big_line)
{
	int k=choose("k",3), d=choose("d",TH(3,7)), o=choose("open",2), pl=choose("place",TH(3,4)); if( TH(1,0)==1 && pl!=k && k ) return; Dir u=dirOf(d>1?d+1>6?6:d+1:d); Num c=in("c",-12,12); auto z=placeOf(pl);
	Pts p=bigShape(k), e; for( auto& s:sidesOf(p,!o) ) crossingLine( -u.y,u.x,c, s, e );
	Pts f; for( auto& q:e ) f.push_back( Point2d(q.getX()*z.s+z.x,q.getY()*z.s+z.y) );
	poly( placed(p,pl), !o, Line2d(-u.y,u.x,c*z.s+u.y*z.x-u.x*z.y), f, "big-line" );
}
CASE(big_segment)
{
	int k=choose("k",TH(2,3)), o=choose("open",2), w=choose("w",2), r=choose("rev",2), pl=choose("place",TH(2,4)); if( TH(1,0)==1 && (r!=o || pl!=w) ) return; Num x=in("x",-6,10); auto z=placeOf(pl);
	Point2d a(x,w?-3.3:3.1), b(x+(w?3.2:9.7),w?9.4:4.35); auto P=[&]( const Point2d& q ) { return Point2d(q.getX()*z.s+z.x,q.getY()*z.s+z.y); };
	Pts p=bigShape(k?k:1), e, f; if( k==0 ) p=bigShape(0); for( auto& s:sidesOf(p,!o) ) crossing( a,b,s.a,s.b,e ); for( auto& q:e ) f.push_back(P(q));
	p=placed(p,pl); if( r ) poly( p, !o, OSegment(P(b),P(a)), f, "big-oseg" ); else poly( p, !o, Segment(P(a),P(b)), f, "big-seg" );
}
CASE(big_circle)
{
	int k=choose("k",TH(2,3)), o=choose("open",2), c=TH(k,choose("c",2)); if( TH(1,0)==1 && o!=k ) return; static const double C[2][2]={{3.1,3.2},{6.4,-0.7}}; Num R=in("r",0.2,TH(3,9)); Point2d z(C[c][0],C[c][1]); Pts p=bigShape(k); unsigned n=0; auto S=sidesOf(p,!o); for( auto& s:S ) n+=crossingCircle(z,R,s);
	Circle q(z,R); auto r= o? OPolyline(p).intersects(q) : CPolyline(p).intersects(q); check( r.size()==n, "big-circle-size" ); auto v=r.get(); std::vector<Fm> f; for( auto& t:v ) { f.push_back( near( d2(t,z),R*R,1e-4 ) ); f.push_back( onSides(t,S) ); } check( all(f), "big-circle-points" );
	size_t m= o? q.intersects(OPolyline(p)).size() : q.intersects(CPolyline(p)).size(); check( m==n, "big-circle-back" );
}
