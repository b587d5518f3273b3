#include "geom.hpp"
using Img=img::Image<img::SvgImage>;
using DP=img::DrawParams;
static Circle C3( Num x, Num y, Num r ) { return Circle(x,y,r); }
// the written document, element by element
struct El { std::string n; std::map<std::string,std::string> a; };
struct Coll: tinyxml2::XMLVisitor
{
	std::vector<El> v;
	bool VisitExit( const tinyxml2::XMLElement& e ) override { El r; r.n=e.Name(); for( auto p=e.FirstAttribute(); p; p=p->Next() ) { check( r.a.count(p->Name())==0, "attribute-once" ); r.a[p->Name()]=p->Value(); } if( r.n!="g" && r.n!="style" && r.n!="svg" ) v.push_back(r); return true; }
};
static std::string str( const Img& im ) { std::ostringstream o; o<<im; return o.str(); }
static std::vector<El> els( const Img& im ) { tinyxml2::XMLDocument d; check( d.Parse(str(im).c_str())==tinyxml2::XML_SUCCESS, "well-formed" ); Coll c; d.Accept(&c); return c.v; }
static std::vector<CommonTypeD> back( const Img& im ) { tinyxml2::XMLDocument d; check( d.Parse(str(im).c_str())==tinyxml2::XML_SUCCESS, "well-formed" ); svg::Visitor c; d.Accept(&c); return c.get(); }
#ifdef SYMX
static Num val( const El& e, const char* k ) { auto i=e.a.find(k); return i==e.a.end()? Num(-12345) : h2d_stod(i->second); }
#else
static Num val( const El& e, const char* k ) { auto i=e.a.find(k); return i==e.a.end()? -12345 : std::stod(i->second); }
#endif
static const double TOL=4e-3; // six digits are written
template<class X> const X* one( const Img& im, const std::string& w ) { static std::vector<CommonTypeD> v; v=back(im); check( v.size()==1, w+"-one" ); if( v.size()!=1 ) return nullptr; auto p=std::get_if<X>(&v[0]); check( p!=nullptr, w+"-type" ); return p; }
template<class PL> void pts( const PL& p, const Pts& e, const std::string& w )
{ const auto& v=p.getPts(); check( v.size()==e.size(), w+"-count" ); if( v.size()!=e.size() ) return; std::vector<Fm> f; for( size_t i=0;i<e.size();i++ ) f.push_back( nearpt(v[i],e[i],TOL) ); check( all(f), w+"-points" ); }
static Fm line( const El& e, Num a, Num b, Num c, Num d )
{
	if( e.n!="line" ) return Fm(eq(Num(0),Num(1)));
	Num x1=val(e,"x1"), y1=val(e,"y1"), x2=val(e,"x2"), y2=val(e,"y2"); auto s=[&]( Num p, Num q, Num r, Num t ) { return all( { near(x1,p,TOL), near(y1,q,TOL), near(x2,r,TOL), near(y2,t,TOL) } ); };
	return Or( s(a,b,c,d), s(c,d,a,b) );
}
struct L4 { Num a,b,c,d; };
static void lines( const std::vector<El>& v, const std::vector<L4>& e, const std::string& w, size_t from=0 )
{
	check( v.size()>=from+e.size(), w+"-count" ); if( v.size()<from+e.size() ) return;
	std::vector<Fm> f; for( auto& s:e ) { std::vector<Fm> g; for( size_t i=from;i<from+e.size();i++ ) g.push_back( line(v[i],s.a,s.b,s.c,s.d) ); f.push_back( any(g) ); } check( all(f), w );
}
// ---- drawing then importing
CASE(circle) { Num x=in("x",-99,99), y=in("y",-99,99), r=in("r",0.1,99); Img im(200,200); Circle c(x,y,r); int k=choose("k",4); if( k==0 ) c.draw(im); else if( k==1 ) draw(im,c); else if( k==2 ) im.draw(c); else draw(im,c,DP().setThickness(3)); if( auto q=one<CircleD>(im,"circle") ) check( And( nearpt(q->center(),x,y,TOL), near(q->radius(),r,TOL) ), "circle" ); }
CASE(rect) { Num x=in("x",-99,99), y=in("y",-99,99), w=in("w",0.1,99), h=in("h",0.1,99); Img im(200,200); FRect c(x,y,x+w,y+h); int k=choose("k",3); if( k==0 ) c.draw(im); else if( k==1 ) draw(im,c); else im.draw(c); if( auto q=one<FRectD>(im,"rect") ) check( And( nearpt(q->getPts().first,x,y,2*TOL), nearpt(q->getPts().second,x+w,y+h,2*TOL) ), "rect" ); }
CASE(segment)
{
	Num x=in("x",-99,99), y=in("y",-99,99), u=in("u",0.1,99), w=in("w",-99,99); Img im(200,200); Segment c(x,y,x+u,w); int k=choose("k",3); if( k==0 ) c.draw(im); else if( k==1 ) draw(im,c); else im.draw(c);
	if( auto q=one<SegmentD>(im,"segment") ) { auto p=q->getPts(); check( And( nearpt(p.first,x,y,TOL), nearpt(p.second,x+u,w,TOL) ), "segment" ); }
}
// the segment and its arrows: a bar at the start, a head at the end
CASE(oseg)
{
	int d=choose("d",4); Num x=in("x",-99,99), y=in("y",-99,99); Dir u=dirOf( d==0?0 : d==1?1 : d==2?2 : 3 ); if( choose("back",2) ) u=Dir{-u.x,-u.y}; double L= choose("len",2) ? 5 : 50; Num ex=x+L*u.x, ey=y+L*u.y; Img im(200,200); OSegment o(Point2d(x,y),Point2d(ex,ey)); o.draw(im); auto v=els(im); check( v.size()==4, "count" ); if( v.size()!=4 ) return;
	check( line(v[0],x,y,ex,ey), "body" ); Num nx=-8*u.y, ny=8*u.x, bx=ex-8*u.x, by=ey-8*u.y; lines( v, { {x+nx,y+ny,x-nx,y-ny}, {bx+nx,by+ny,ex,ey}, {bx-nx,by-ny,ex,ey} }, "arrows", 1 );
}
CASE(polyline)
{
	int c=choose("closed",2), i=choose("i",4), f=choose("f",3); Num x=in("x",-99,99), y=in("y",20,99); Pts p{ {0,0}, {40,1}, {35,12}, {-10,15} }; p[i]=Point2d(x,y); Img im(200,200); auto d=[&]( const auto& a ) { if( f==0 ) a.draw(im); else if( f==1 ) draw(im,a); else im.draw(a); };
	if( c ) { CPolyline a(p); d(a); if( auto q=one<CPolylineD>(im,"closed") ) pts(*q,p,"closed"); } else { OPolyline a(p); d(a); if( auto q=one<OPolylineD>(im,"open") ) pts(*q,p,"open"); }
}
CASE(polyline_small) { Num x=in("x",1,99); Img im(200,200); OPolyline e, o( Pts{ {0,0},{x,3} } ); CPolyline c; e.draw(im); c.draw(im); check( els(im).empty(), "empty" ); o.draw(im); if( auto q=one<OPolylineD>(im,"two") ) pts(*q,{ {0,0},{x,Num(3)} },"two"); }
CASE(ellipse)
{
	static const double A[]={0,30,90,135,-20}; int k=choose("k",5); Num x=in("x",-99,99), y=in("y",-9,9); Ellipse e(x,y,Num(6),Num(3),Num(A[k]*M_PI/180)); Img im(200,200); e.draw(im);
	auto v=els(im); check( v.size()==1 && v[0].n=="ellipse", "one" ); if( v.size()!=1 ) return; check( all( { near(val(v[0],"cx"),x,TOL), near(val(v[0],"cy"),y,TOL), near(val(v[0],"rx"),6,TOL), near(val(v[0],"ry"),3,TOL) } ), "attributes" );
	if( auto q=one<EllipseD>(im,"ellipse") ) { check( nearpt(q->getCenter(),x,y,TOL), "center" ); auto m=q->getMajMin(); check( And( near(m.first,6,TOL), near(m.second,3,TOL) ), "axes" ); auto l=q->getAxisLines(); double c=std::cos(A[k]*M_PI/180), s=std::sin(A[k]*M_PI/180); check( all( { near(evalLine(l.first,x+6*c,y+6*s),0,0.02), near(evalLine(l.first,x-6*c,y-6*s),0,0.02), near(evalLine(l.second,x-3*s,y+3*c),0,0.02) } ), "direction" ); }
}
CASE(ellipse_axes)
{
	Num a=in("a",3.5,50), b=in("b",0.5,3); Ellipse e(4,5,a,b,Num(M_PI/2)); Img im(200,200); e.draw(im); if( auto q=one<EllipseD>(im,"ellipse") ) { auto m=q->getMajMin(); check( And( near(m.first,a,TOL), near(m.second,b,TOL) ), "axes" ); auto l=q->getAxisLines(); check( And( near(evalLine(l.first,4,5+a),0,0.02), near(evalLine(l.second,4+b,5),0,0.02) ), "direction" ); }
}
// ---- lines are cut by the image
CASE(lines_cut)
{
	int d=choose("d",6); Num t=in("t",-300,500); Img im(200,100); Dir u=dirOf(d); Line2d l; // through (t,0) or (0,t)
	bool h= u.y==0; l=Line2d( h? Point2d(0,t):Point2d(t,0), h? Point2d(u.x,t+u.y):Point2d(t+u.x,u.y) ); Pts e; Pts r{ {0,0},{199,0},{199,99},{0,99} }; auto a=l.get();
	Num px=h?Num(0):t, py=h?t:Num(0); for( auto& s:sidesOf(r,true) ) crossingLine( Num(-u.y), Num(u.x), u.y*px-u.x*py, s, e, 0.5 );
	l.draw(im); auto v=els(im); check( v.size()== ( e.size()==2 ? 1:0 ), "count" ); if( v.size()==1 && e.size()==2 ) check( line( v[0], e[0].getX(), e[0].getY(), e[1].getX(), e[1].getY() ), "cut" );
}
// ---- points
CASE(points)
{
	static const img::PtStyle S[]={ img::PtStyle::Plus, img::PtStyle::Times, img::PtStyle::Star, img::PtStyle::Diam, img::PtStyle::Squ, img::PtStyle::Dot }; int k=choose("k",6), z=choose("size",3), f=choose("f",2); Num x=in("x",0,199), y=in("y",0,99); DP dp; dp.setPointStyle(S[k]); int D=5; if( z==1 ) { dp.setPointSize(9); D=9; } if( z==2 ) { dp.setPointSize(3); D=3; }
	Img im(200,100); Point2d p(x,y); if( f ) draw(im,p,dp); else p.draw(im,dp); auto v=els(im); int q=std::lround(0.7*D);
	std::vector<L4> plus{ {x-D,y,x+D,y}, {x,y-D,x,y+D} }, tim{ {x-q,y+q,x+q,y-q}, {x+q,y+q,x-q,y-q} }, star{ plus[0],plus[1],tim[0],tim[1] }, dia{ {x-D,y,x,y-D}, {x,y-D,x+D,y}, {x+D,y,x,y+D}, {x-D,y,x,y+D} }, squ{ {x-q,y-q,x+q,y-q}, {x+q,y-q,x+q,y+q}, {x+q,y+q,x-q,y+q}, {x-q,y+q,x-q,y-q} };
	if( k==5 ) { check( v.size()==1 && v[0].n=="circle", "dot-one" ); if( v.size()==1 ) check( all( { near(val(v[0],"cx"),x,TOL), near(val(v[0],"cy"),y,TOL), near(val(v[0],"r"),z? D:4,TOL) } ), "dot" ); return; }
	auto& e= k==0? plus : k==1? tim : k==2? star : k==3? dia : squ; check( v.size()==e.size(), "count" ); lines(v,e,"style");
}
CASE(points_outside)
{
	Num x=in("x",-300,500), y=in("y",-300,500); Img im(200,100); Point2d(x,y).draw(im); bool out=branch( Or( Or( lt(x,0), ge(x,200) ), Or( lt(y,0), ge(y,100) ) ) ); check( els(im).size()== ( out? 0:2 ), "drawn" );
}
CASE(show_points)
{
	int k=choose("k",3); Num x=in("x",20,60), y=in("y",30,60); DP dp; dp.showPoints(); Img im(200,100); Pts p{ {10,10}, {90,11}, {x,y} };
	if( k==0 ) { Segment s(p[0],p[2]); s.draw(im,dp); auto v=els(im); check( v.size()==5, "count" ); lines( v, { {10,10,x,y} }, "body" ); std::vector<L4> e; for( int i:{0,2} ) { Num a=p[i].getX(), b=p[i].getY(); e.push_back({a-5,b,a+5,b}); e.push_back({a,b-5,a,b+5}); } lines(v,e,"points",1); return; }
	if( k==1 ) CPolyline(p).draw(im,dp); else OPolyline(p).draw(im,dp);
	auto v=els(im); check( v.size()==7 && v[0].n==( k==1? "polygon":"polyline" ), "count" ); std::vector<L4> e; for( auto& q:p ) { Num a=q.getX(), b=q.getY(); e.push_back({a-5,b,a+5,b}); e.push_back({a,b-5,a,b+5}); } lines(v,e,"points",1);
}
CASE(text)
{
	static const char* H[]={"#505050","#0102fa"}; int k=choose("k",2), f=choose("f",2); Num x=in("x",1,199), y=in("y",1,99); Img im(200,100); DP dp; if( k ) dp.setColor(1,2,250).setFontSize(33); if( f ) drawText(im,"ab",Point2d(x,y),dp); else im.drawText("ab",Point2d(x,y),dp);
	im.drawText("c",Point2d(x+1,y),dp); auto v=els(im); check( v.size()==2, "count" ); if( v.size()!=2 ) return; check( And( near(val(v[0],"x"),x,TOL), near(val(v[0],"y"),y,TOL) ), "place" ); check( near(val(v[1],"x"),x+1,TOL), "place-2" ); for( auto& e:v ) { check( e.n=="text" && e.a["fill"]==H[k], "color" ); check( e.a["font-size"]==( k? "33px":"20px" ), "font" ); } check( str(im).find(">ab</text>")!=std::string::npos, "text" );
}
// ---- parameters
template<class F> void attrs( F f, const char* n, bool fillable )
{
	int k=choose("k",5); DP dp; std::string col="rgb(80,80,80)", w="1"; if( k==1 ) { dp.setColor(1,20,255); col="rgb(1,20,255)"; } if( k==2 ) { dp.setColor(img::Color(9,8,7)).setThickness(7); col="rgb(9,8,7)"; w="7"; } if( k==3 ) dp.setAttrString("fill=\"red\" opacity=\"0.5\""); if( k==4 ) dp.setAttrString("opacity=\"0.25\"");
	Img im(200,100); f(im,dp); auto v=els(im); check( v.size()==1 && v[0].n==n, "one" ); if( v.size()!=1 ) return; auto& a=v[0].a; check( a["stroke"]==col, "stroke" ); check( a["stroke-width"]==w, "width" ); if( fillable ) check( a["fill"]==( k==3? "red":"none" ), "fill" ); check( a["opacity"]==( k==3? "0.5" : k==4? "0.25" : "" ), "attribute" );
}
CASE(attr_circle) { Num x=in("x",1,99); attrs( [&]( Img& i, DP d ) { C3(x,3,4).draw(i,d); }, "circle", true ); }
CASE(attr_circle_radius) { Num r=in("r",0.01,99); attrs( [&]( Img& i, DP d ) { Circle(Point2d(3,4),r).draw(i,d); }, "circle", true ); }
CASE(attr_ellipse_size) { Num r=in("r",1,99); attrs( [&]( Img& i, DP d ) { Ellipse(Num(3),Num(4),r+1,r,Num(0.5)).draw(i,d); }, "ellipse", true ); }
CASE(attr_rect_size) { Num r=in("r",0.01,99); attrs( [&]( Img& i, DP d ) { FRect(-r,-1,0,r).draw(i,d); }, "rect", true ); }
CASE(attr_polygon_big) { Num r=in("r",5,9); attrs( [&]( Img& i, DP d ) { Pts p=bigShape(1); p[2]=Point2d(r,6); CPolyline(p).draw(i,d); }, "polygon", true ); attrs( [&]( Img& i, DP d ) { Pts p=bigShape(1); p[2]=Point2d(r,6); OPolyline(p).draw(i,d); }, "polyline", true ); }
CASE(attr_rect) { Num x=in("x",1,99); attrs( [&]( Img& i, DP d ) { FRect(0,0,x,4).draw(i,d); }, "rect", true ); }
CASE(attr_ellipse) { Num x=in("x",1,99); attrs( [&]( Img& i, DP d ) { Ellipse(x,Num(3),Num(5),Num(2)).draw(i,d); }, "ellipse", true ); }
CASE(attr_polygon) { Num x=in("x",1,99); attrs( [&]( Img& i, DP d ) { CPolyline(Pts{{0,0},{x,1},{3,5}}).draw(i,d); }, "polygon", true ); }
CASE(attr_polyline) { Num x=in("x",1,99); attrs( [&]( Img& i, DP d ) { OPolyline(Pts{{0,0},{x,1},{3,5}}).draw(i,d); }, "polyline", true ); }
CASE(attr_segment) { Num x=in("x",1,99); attrs( [&]( Img& i, DP d ) { Segment(0,0,x,4).draw(i,d); }, "line", false ); }
CASE(attr_line) { Num x=in("x",1,99); attrs( [&]( Img& i, DP d ) { Line2d(Point2d(x,0),Point2d(x+10,50)).draw(i,d); }, "line", false ); }
CASE(defaults)
{
	Num x=in("x",1,99); Img im(200,100); DP dp; dp.setColor(0,0,250).setThickness(3); Circle c=C3(x,3,4); c.draw(im); dp.setDefault(); c.draw(im); c.draw(im,DP().setColor(1,1,1)); dp.setThickness(9); c.draw(im); DP::resetDefault(); c.draw(im); c.draw(im,dp); auto v=els(im); check( v.size()==6, "count" ); if( v.size()!=6 ) return;
	static const char* C[]={"rgb(80,80,80)","rgb(0,0,250)","rgb(1,1,1)","rgb(0,0,250)","rgb(80,80,80)","rgb(0,0,250)"}; static const char* W[]={"1","3","3","3","1","9"}; for( int i=0;i<6;i++ ) check( v[i].a["stroke"]==C[i] && v[i].a["stroke-width"]==W[i], "params" );
	for( int s:{0,2,4,10} ) check( throws([&]{ DP().setPointSize(s); }), "even-size" );
}
CASE(image)
{
	Num x=in("x",1,99); Img im(300,400), d; check( im.size()==std::make_pair<size_t,size_t>(300,400) && im.cols()==300 && im.rows()==400, "size" ); check( d.cols()==500 && d.rows()==500, "default" ); tinyxml2::XMLDocument doc; doc.Parse(str(im).c_str()); auto s=svg::getImgSize(doc); check( And( near(s.first,300), near(s.second,400) ), "written-size" );
	C3(x,3,4).draw(im); check( els(im).size()==1, "one" ); im.clear(); check( els(im).size()==0, "cleared" ); C3(3,x,4).draw(im); auto v=els(im); check( v.size()==1, "again" ); if( v.size()==1 ) check( near(val(v[0],"cy"),x,TOL), "again-y" );
	im.setSize(50,60); check( im.cols()==50 && im.rows()==60, "set" ); im.setSize( std::make_pair(70,80) ); check( im.cols()==70 && im.rows()==80, "set-pair" );
}
// ---- several objects: all of them, in the order, with their parameters
CASE(containers)
{
	int k=choose("k",3); Num x=in("x",1,99), y=in("y",1,99); Img im(200,100); std::vector<Circle> c{ C3(x,3,4), C3(5,y,6) }; std::array<FRect,2> r{ FRect(0,0,x,4), FRect(1,1,5,y+2) }; std::vector<CPolyline> p{ CPolyline(Pts{{0,0},{x,1},{3,5}}), CPolyline(Pts{{0,0},{x,1},{3,y+6},{-1,5}}) };
	if( k==0 ) { draw(im,c); draw(im,r,DP().setThickness(4)); draw(im,p); } else if( k==1 ) { draw(im,std::make_pair(c[0],c[1])); draw(im,std::make_pair(r[0],r[1]),DP().setThickness(4)); draw(im,std::make_pair(p[0],p[1])); } else { im.draw(c[0]); im.draw(c[1]); im.draw(std::make_pair(r[0],r[1]),DP().setThickness(4)); im.draw(std::make_pair(p[0],p[1])); }
	auto v=els(im); check( v.size()==6, "count" ); if( v.size()!=6 ) return; check( v[0].n=="circle" && v[1].n=="circle" && v[2].n=="rect" && v[3].n=="rect" && v[4].n=="polygon" && v[5].n=="polygon", "order" ); check( all( { near(val(v[0],"cx"),x,TOL), near(val(v[1],"cy"),y,TOL), near(val(v[2],"width"),x,TOL), near(val(v[3],"height"),y+1,TOL) } ), "values" ); check( v[1].a["stroke-width"]=="1" && v[2].a["stroke-width"]=="4" && v[3].a["stroke-width"]=="4", "params" );
	auto b=back(im); check( b.size()==6, "back" ); if( b.size()==6 ) { auto q=std::get_if<CPolylineD>(&b[5]); check( q!=nullptr, "back-type" ); if( q ) pts(*q,p[1].getPts(),"back-polygon"); }
}
CASE(function_params)
{
	Num x=in("x",1,99); Img im(200,100); std::vector<Circle> c; for( int i=0;i<3;i++ ) c.push_back( C3(x+i,3,4) ); std::function<DP(int)> f=[]( int i ) { return DP().setThickness(2+i).setColor(i,0,0); }; draw(im,c,f); auto v=els(im); check( v.size()==3, "count" ); if( v.size()!=3 ) return;
	for( int i=0;i<3;i++ ) { check( near(val(v[i],"cx"),x+i,TOL), "place" ); check( v[i].a["stroke-width"]==std::to_string(2+i) && v[i].a["stroke"]=="rgb("+std::to_string(i)+",0,0)", "params" ); }
}
CASE(variants)
{
	Num x=in("x",1,99); Img im(200,100); std::vector<CommonType> c; c.push_back( C3(x,3,4) ); c.push_back( FRect(0,0,x,4) ); c.push_back( Segment(0,0,x,4) ); c.push_back( OPolyline(Pts{{0,0},{x,1},{3,5}}) ); draw(im,c,DP().setThickness(6)); auto v=els(im); check( v.size()==4, "count" ); if( v.size()!=4 ) return; check( v[0].n=="circle" && v[1].n=="rect" && v[2].n=="line" && v[3].n=="polyline", "order" ); check( And( near(val(v[0],"cx"),x,TOL), near(val(v[1],"width"),x,TOL), near(val(v[2],"x2"),x,TOL) ), "values" ); for( auto& e:v ) check( e.a["stroke-width"]=="6", "params" );
	Img i2(200,100); fct::DrawFunct f(i2); for( auto& e:c ) std::visit(f,e); check( els(i2).size()==4, "functor" );
}
// indexes and angles of polylines
CASE(polyline_index)
{
	int k=choose("k",2), s=choose("points",2); Num x=in("x",20,22.9), y=in("y",36,38.9); DP dp; dp.showIndex(); dp.showPoints(s==1); Img im(200,100); Pts p{ {10,10}, {90,11}, {x,y} }; if( k ) CPolyline(p).draw(im,dp); else OPolyline(p).draw(im,dp);
	auto v=els(im); size_t n=0; check( v.size()==4u+6u*s, "count" ); std::string d=str(im); for( auto& e:v ) if( e.n=="text" ) { if( n<3 ) check( And( near(val(e,"x"),p[n].getX(),1), near(val(e,"y"),p[n].getY(),1) ), "place" ); n++; } check( n==3, "texts" ); size_t at=0; for( auto t:{ ">0</text>", ">1</text>", ">2</text>" } ) { auto i=d.find(t,at); check( i!=std::string::npos, "labels" ); if( i!=std::string::npos ) at=i; }
	DP q; q.showIndex().showIndex(false); Img j(200,100); CPolyline(p).draw(j,q); check( els(j).size()==1, "off" );
}
CASE(polyline_angles)
{
	int k=choose("k",2); Num x=in("x",20,60), y=in("y",30,60); DP dp; dp.showAngles(); Img im(200,100); Pts p{ {10,10}, {90,11}, {x,y}, {5,70} }; if( k ) CPolyline(p).draw(im,dp); else OPolyline(p).draw(im,dp); auto v=els(im); std::vector<El> t; for( auto& e:v ) if( e.n=="text" ) t.push_back(e); check( t.size()>=2 && t.size()<=4, "count" ); if( t.size()<2 || t.size()>4 ) return;
	std::string d=str(im); size_t at=0, n=0; std::vector<Fm> f, g; while( ( at=d.find("</text>",at) )!=std::string::npos ) { size_t b=d.rfind('>',at)+1; El e; e.a["v"]=d.substr(b,at-b); Num a=val(e,"v")*(M_PI/180); if( n<t.size() ) { size_t m=(n+1)%4; OSegment i(p[(m+3)%4],p[m]), j(p[m],p[(m+1)%4]); f.push_back( And( near(val(t[n],"x"),p[m].getX(),TOL), near(val(t[n],"y"),p[m].getY(),TOL) ) ); if( !( !k && n>1 ) ) g.push_back( near( a, getAngle(i,j), 1e-3 ) ); } n++; at+=3; }
	check( n==t.size(), "texts" ); check( all(f), "places" ); check( all(g), "angles" ); if( !k ) check( n==2, "open" );
}

// groups are closed
static void balanced( const Img& im, const char* w ) { std::string d=str(im); int o=0; for( size_t i=0;i<d.size();i++ ) { if( d.compare(i,2,"<g")==0 ) o++; if( d.compare(i,3,"</g")==0 ) { o--; check( o>=0, w ); } } check( o==0, w ); }
CASE(groups)
{
	int k=choose("k",2), s=choose("points",2), x=choose("index",2), a=choose("angles",2), n=choose("n",3); Num u=in("u",20,60); Pts p{ {10,10}, {90,11} }; if( n ) p.push_back( Point2d(u,40) ); if( n>1 ) { p.push_back( Point2d(5,70) ); p.push_back( Point2d(1,40) ); } DP dp; dp.showPoints(s==1).showIndex(x==1).showAngles(a==1); Img im(200,100); if( k ) CPolyline(p).draw(im,dp); else OPolyline(p).draw(im,dp); Segment(0,0,u,4).draw(im,dp); balanced( im, "closed" );
}
CASE(big_polyline)
{
	int k=choose("k",3), c=choose("closed",2), i=choose("i",8); Num u=in("u",-99,99); Pts p=bigShape(k); if( i+1>=(int)p.size() ) return; p[i]=Point2d(u,Num(9)); Img im(200,200); if( c ) { CPolyline(p).draw(im); if( auto q=one<CPolylineD>(im,"big") ) pts(*q,p,"big"); } else { OPolyline(p).draw(im); if( auto q=one<OPolylineD>(im,"big") ) pts(*q,p,"big"); }
}
CASE(big_angles)
{
	int k=choose("k",2), sh=choose("shape",TH(1,3)); Num x=in("x",8,12); DP dp; dp.showAngles(); Img im(200,100); Pts p=bigShape(sh); p[3]=Point2d(x,Num(9)); size_t N=p.size(); if( k ) CPolyline(p).draw(im,dp); else OPolyline(p).draw(im,dp); auto v=els(im); std::vector<El> t; for( auto& e:v ) if( e.n=="text" ) t.push_back(e); size_t lo=N-2; check( t.size()>=lo && t.size()<=N, "count" ); if( t.size()<lo || t.size()>N ) return;
	std::vector<Fm> f; for( size_t n=0;n<t.size();n++ ) { size_t m=(n+1)%N; f.push_back( And( near(val(t[n],"x"),p[m].getX(),TOL), near(val(t[n],"y"),p[m].getY(),TOL) ) ); } check( all(f), "places" );
}
