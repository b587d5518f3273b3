#include "geom.hpp"
static Num len( const Pts& p, bool closed ) { Num s=0; for( auto& d:sidesOf(p,closed) ) s+=std::sqrt( d2(d.a,d.b) ); return s; }
static Num sarea2( const Pts& p ) { Num s=0; for( size_t i=0;i<p.size();i++ ) { auto& a=p[i]; auto& b=p[(i+1)%p.size()]; s+=a.getX()*b.getY()-a.getY()*b.getX(); } return s; }
// centroid: area-weighted mean of the triangles seen from the first point (times 3 times the double area)
static std::array<Num,2> cen6( const Pts& p )
{
	Num sx=0, sy=0;
	for( size_t i=1;i+1<p.size();i++ )
	{ Num a=cross(p[0],p[i],p[i+1]); sx+=a*(p[0].getX()+p[i].getX()+p[i+1].getX()); sy+=a*(p[0].getY()+p[i].getY()+p[i+1].getY()); }
	return {sx,sy};
}
// the value of a simple polygon (oracle points e)
static void polyIs( const CPolyline& c, const Pts& e, const std::string& w )
{
	Num A2=sarea2(e); auto k=cen6(e); Num ar=c.area();
	check( c.isSimple(), w+"-simple" );
	check( Or( near( 2*ar, A2, 1e-4 ), near( 2*ar, -A2, 1e-4 ) ), w+"-area" ); check( ge( ar, 0 ), w+"-area-sign" );
	auto q=c.centroid(); check( And( near( q.getX()*3*A2, k[0], 1e-3 ), near( q.getY()*3*A2, k[1], 1e-3 ) ), w+"-centroid" );
	check( near( c.length(), len(e,true), 1e-4 ), w+"-length" );
}
CASE(length)
{
	int n=2+choose("n",4), w=choose("where",2), f=choose("free",2); Pts p{ {0,0}, {4,1}, {5,4}, {1,6}, {-2,3} }; p.resize(n);
	Num x=in("x",-10,-4), y=in("y",-10,10); p[w?n-1:0]=Point2d(x,y);
	CPolyline c(p); OPolyline o(p);
	check( near( f?length(c):c.length(), len(p,true), 1e-5 ), "closed" ); check( near( f?length(o):o.length(), len(p,false), 1e-5 ), "open" );
	check( near( c.length(), len(p,true), 1e-5 ), "again" );
}
CASE(length_empty) { CPolyline c; OPolyline o; check( near(c.length(),0), "closed" ); check( near(o.length(),0), "open" ); check( near(c.area(),0), "area" ); check( throws([&]{c.centroid();}), "centroid-throws" ); Num x=in("x",0,1); (void)x; }
CASE(triangle)
{
	int r=choose("r",6), w=choose("w",2); Num x=in("x",-5,5), y=in("y",-5,5);
	Pts p{ {0,0}, {4,w}, {x,y} }; away( cross(p[0],p[1],p[2]), 0.05 ); for( auto& q:{p[0],p[1]} ) assume( ge( d2(q,p[2]), 0.01 ) );
	std::rotate( p.begin(), p.begin()+r%3, p.end() ); if( r>2 ) std::reverse( p.begin(), p.end() );
	CPolyline c(p); polyIs( c,p,"t" ); check( near( area(c), c.area(), 1e-9 ), "free-area" ); auto q=centroid(c); check( nearpt( q, c.centroid(), 1e-9 ), "free-centroid" );
	OPolyline o(p); check( near(o.area(),0), "open-area" ); check( throws([&]{o.centroid();}), "open-centroid" );
}
// one symbolic vertex on a line, everything simple
CASE(polygons)
{
	int k=choose("k",5), r=choose("r",2); Pts p=shape(k); Num t=in("t",-0.6,0.6);
	p[1]=Point2d( p[1].getX()+t, p[1].getY()-0.5*t ); if( r ) std::reverse( p.begin(), p.end() );
	CPolyline c(p); polyIs( c,p,"p" ); OPolyline o(p); check( near(o.area(),0), "open-area" );
}
CASE(quad_vertex)
{
	int k=choose("k",TH(4,8)); static const double L[8][4]={{0,1,-6,6},{1,0.5,-5,7},{1,1,-6,6},{-0.5,1,-4,8},{1,-1,-6,6},{1,0,3,-6},{0,1,3,1},{1,2,1,-3}}; Num t=in("t",-8,8);
	Pts p{ {0,0}, {4,0}, Point2d(L[k][2]+t*L[k][0]+0.37,L[k][3]*0.5+t*L[k][1]), {0,3} };
	Pts e; crossing( p[0],p[1],p[2],p[3],e ); crossing( p[1],p[2],p[3],p[0],e );
	CPolyline c(p);
	if( e.size() ) { check( !c.isSimple(), "crossing" ); check( near(c.area(),0), "crossing-area" ); check( throws([&]{c.centroid();}), "crossing-centroid" ); }
	else { away( sarea2(p), 0.05 ); polyIs( c,p,"q" ); }
	check( near( c.length(), len(p,true), 1e-4 ), "length" );
}
// reported values always those of the current points
CASE(history)
{
	int op=choose("op",24), k=choose("k",TH(2,3)), q=choose("query",2); Pts p=shape(k); Num u=in("u",-4,4), v= op<6||op==22 ? in("v",-4,4) : Num(1.5);
	CPolyline c(p); OPolyline o(p);
	auto ask=[&]{ (void)c.length(); (void)c.isSimple(); (void)c.area(); (void)c.centroid(); (void)c.isConvex(); (void)o.length(); if( q ) (void)c.getBB(); };
	ask();
	auto map=[&]( auto f ) { for( auto& a:p ) { auto r=f(a.getX(),a.getY()); a=Point2d(r.first,r.second); } };
	auto MP=[]( Num a, Num b ) { return std::make_pair(a,b); };
	Num x0=p[0].getX(), y0=p[0].getY(); bool openToo=true;
	switch( op )
	{
		case 0: c.translate(u,v); o.translate(u,v); map([&](Num x,Num y){return MP(x+u,y+v);}); break;
		case 1: c.translate(MP(u,v)); o.translate(MP(u,v)); map([&](Num x,Num y){return MP(x+u,y+v);}); break;
		case 2: translate(c,u,v); translate(o,u,v); map([&](Num x,Num y){return MP(x+u,y+v);}); break;
		case 3: c.moveTo(u,v); o.moveTo(u,v); map([&](Num x,Num y){return MP(x+u-x0,y+v-y0);}); break;
		case 4: c.moveTo(Point2d(u,v)); o.moveTo(Point2d(u,v)); map([&](Num x,Num y){return MP(x+u-x0,y+v-y0);}); break;
		case 5: moveTo(c,Point2d(u,v)); moveTo(o,Point2d(u,v)); map([&](Num x,Num y){return MP(x+u-x0,y+v-y0);}); break;
		case 6: c.rotate(Rotate::CCW); o.rotate(Rotate::CCW); map([&](Num x,Num y){return MP(-y,x);}); break;
		case 7: c.rotate(Rotate::CW); o.rotate(Rotate::CW); map([&](Num x,Num y){return MP(y,-x);}); break;
		case 8: c.rotate(Rotate::Full,Point2d(u,1)); o.rotate(Rotate::Full,Point2d(u,1)); map([&](Num x,Num y){return MP(2*u-x,2-y);}); break;
		case 9: c.rotate(Rotate::VMirror); o.rotate(Rotate::VMirror); map([&](Num x,Num y){return MP(-x,y);}); break;
		case 10: c.rotate(Rotate::HMirror,Point2d(1,u)); o.rotate(Rotate::HMirror,Point2d(1,u)); map([&](Num x,Num y){return MP(x,2*u-y);}); break;
		case 11: rotate(c,Rotate::CW); rotate(o,Rotate::CW); map([&](Num x,Num y){return MP(y,-x);}); break;
		case 12: p=shape(4); p[2]=Point2d(3.5,2+0.1*u); c.set(p); o.set(p); break;
		case 13: p=shape(4); p[2]=Point2d(3.5,2+0.1*u); c=CPolyline(p); o=OPolyline(p); break;
		case 14: p=shape(4); p[2]=Point2d(3.5,2+0.1*u); { auto& r=c.getPts(); r.assign(p.begin(),p.end()); auto& s=o.getPts(); s.assign(p.begin(),p.end()); } break;
		case 15: p[1]=Point2d(p[1].getX()+0.1*u,p[1].getY()-0.05*u); c.getPts()[1]=p[1]; o.getPts()[1]=p[1]; break;
		case 16: { away(u,0.1); away(v,0.1); p={ {0,0}, {u,0}, {u,v}, {0,v} }; c.set( FRect(Point2d(0,0),Point2d(u,v)) ); openToo=false; } break;
		case 17: { away(u*2-v,0.1); p={ {u,v}, {0,0}, {1,2}, {1+u,2+v} }; assume( And( ge(sq(u)+sq(v),0.05), ge(sq(u-1)+sq(v-2),0.05) ) ); c.setParallelogram( p[0],p[1],p[2] ); openToo=false; } break;
		case 18: c.clear(); o.clear(); c.set(p); o.set(p); break;
		case 19: { CPolyline d(c); d.translate(u,1); check( near( d.centroid().getX()*3*sarea2(p), cen6(p)[0]+u*3*sarea2(p), 1e-3 ), "copy-centroid" ); } openToo=false; break;
		case 20: { CPolyline d; d=c; ask(); c.translate(u,1); std::swap(c,d); } openToo=false; break;
		case 21: { Homogr h; h.setScale(2,3); c=h*c; o=h*o; map([&](Num x,Num y){return MP(2*x,3*y);}); } break;
		case 22: c.translate(u,v); ask(); c.translate(-u,1); o.translate(0,v+1); map([&](Num x,Num y){return MP(x,y+v+1);}); break;
		case 23: { c.translate(u,1); c.rotate(Rotate::CCW); ask(); c.moveTo(2,3); o.translate(u,1); o.rotate(Rotate::CCW); ask(); o.moveTo(2,3);
			Num a0=-(y0+1), b0=x0+u; map([&](Num x,Num y){return MP(-(y+1)-a0+2,x+u-b0+3);}); } break;
	}
	polyIs( c,p,"after" );
	if( openToo ) check( near( o.length(), len(p,false), 1e-4 ), "after-open-length" );
	Num mx=p[0].getX(), my=p[0].getY(); auto b=c.getBB();
	std::vector<Fm> f; for( auto& a:p ) { f.push_back( le( b.getPts().first.getX(), a.getX()+1e-6 ) ); f.push_back( ge( b.getPts().second.getY(), a.getY()-1e-6 ) ); } check( all(f), "after-bb" );
}
CASE(crossing_history)
{
	int w=choose("w",3); Num u=in("u",-3,3); Pts p{ {0,0}, {4,0}, {4,3}, {0,3} }; CPolyline c(p); (void)c.area(); (void)c.centroid();
	Pts x{ {u,0}, {u+4,3}, {u+4,0}, {u,3} };
	if( w==0 ) c.set(x); if( w==1 ) c=CPolyline(x); if( w==2 ) { auto& r=c.getPts(); std::swap(r[1],r[2]); }
	check( !c.isSimple(), "not-simple" ); check( near(c.area(),0), "no-area" ); check( throws([&]{c.centroid();}), "no-centroid" ); check( near(c.length(),16), "length" );
	if( w==2 ) { auto& r=c.getPts(); std::swap(r[1],r[2]); r[0]=Point2d(0.1*u,0); check( c.isSimple(), "simple-again" ); check( near( 2*c.area(), 24-0.3*u, 1e-5 ), "area-again" ); }
}
// the sum over symbolic data of a minimized polyline
CASE(reduction)
{
	Num u=in("u",0.5,3.5); CPolyline c( Pts{ {0,0}, {u,0}, {4,0}, {4,3}, {4-u,3}, {0,3} } ); (void)c.length(); (void)c.area(); (void)c.centroid();
	c.minimize(); check( c.size()==4, "size" ); check( near(c.length(),14), "length" ); check( near(c.area(),12), "area" ); check( nearpt(c.centroid(),2,1.5), "centroid" );
}
// more vertices, other sizes and places
CASE(big)
{
	int k=choose("k",3), w=choose("place",TH(3,4)), r=choose("r",TH(1,3)), v=choose("rev",2); Num t=in("t",-0.3,0.3); Pts b=bigShape(k); size_t n=b.size(); size_t j=(r*3+1)%n;
	b[j]=Point2d( b[j].getX()+t, b[j].getY()-0.5*t ); Pts p=placed(b,w); std::rotate( p.begin(), p.begin()+r*2, p.end() ); if( v ) std::reverse( p.begin(), p.end() );
	double s=placeOf(w).s; CPolyline c(p); Num A2=sarea2(b), ar=c.area(); check( c.isSimple(), "simple" ); check( Or( near( 2*ar, A2*s*s, 1e-4*s*s ), near( 2*ar, -A2*s*s, 1e-4*s*s ) ), "area" ); check( ge(ar,0), "positive" );
	auto m=cen6(b); auto q=c.centroid(); check( And( near( (q.getX()-placeOf(w).x)*3*A2, m[0]*s, 1e-3 ), near( (q.getY()-placeOf(w).y)*3*A2, m[1]*s, 1e-3 ) ), "centroid" );
	OPolyline o(p); check( near( c.length(), len(b,true)*s, 1e-4 ), "length" ); check( near( o.length(), len(p,false), 1e-4 ), "open-length" );
}
// nothing is left of the former points
CASE(cleared)
{
	int k=choose("k",5), w=choose("w",3); Num u=in("u",0.5,4); Pts p=shape(k); CPolyline c(p); OPolyline o(p); (void)c.length(); (void)c.area(); (void)c.centroid(); (void)c.isConvex(); (void)o.length();
	if( w==2 ) { c=CPolyline(); o=OPolyline(); } else { c.clear(); o.clear(); }
	check( near(c.length(),0) , "length" ); check( near(o.length(),0), "open-length" ); check( near(c.area(),0), "area" ); check( !c.isSimple() && !c.isConvex(), "not-polygon" ); check( throws([&]{c.centroid();}) && throws([&]{c.getBB();}), "throws" ); check( c.size()==0 && c.nbSegs()==0 && o.getSegs().empty(), "empty" );
	if( w==1 ) { auto& v=c.getPts(); v={ Point2d(0,0), Point2d(u,0), Point2d(0,2*u) }; check( near(c.area(),u*u), "refilled-area" ); check( nearpt(c.centroid(),u/3,2*u/3), "refilled-centroid" ); }
}
