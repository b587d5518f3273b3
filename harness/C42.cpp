// OpenCV through the stand-in of stub/opencv2 (same types, recorded drawing calls), Boost.Geometry itself
#include "geom.hpp"
#include "hlib.hpp"
namespace bg=boost::geometry;
using BP1=bg::model::point<Num,2,bg::cs::cartesian>;
using BP2=bg::model::d2::point_xy<Num>;
using DP=img::DrawParams;
using CvImg=img::Image<cv::Mat>;
template<class A,class B> static bool same( const B& ) { return std::is_same<A,B>::value; }
template<class P> static Fm cvn( const P& p, Num x, Num y, double tol ) { return And( near(p.x,x,tol), near(p.y,y,tol) ); }
// ---- points
CASE(to_cv)
{
	int k=choose("w",3); static const double W[]={1,-2,4}; Num x=in("x",-99,99), y=in("y",-99,99), w=W[k]; Point2d p(x*w,y*w,w); int f=choose("f",3);
	if( f==0 ) { check( same<cv::Point2d>(p.getCvPtd()) && same<cv::Point2f>(p.getCvPtf()) && same<cv::Point2i>(p.getCvPti()), "types" ); check( cvn(p.getCvPtd(),x,y,1e-9), "double" ); check( cvn(p.getCvPtf(),x,y,1e-4), "float" ); check( cvn(p.getCvPti(),x,y,1), "int" ); }
	else if( f==1 ) { check( same<cv::Point2d>(getCvPtd(p)) && same<cv::Point2f>(getCvPtf(p)) && same<cv::Point2i>(getCvPti(p)), "types" ); check( cvn(getCvPtd(p),x,y,1e-9), "double" ); check( cvn(getCvPtf(p),x,y,1e-4), "float" ); check( cvn(getCvPti(p),x,y,1), "int" ); }
	else { check( And( cvn(p.getPt<cv::Point2d>(),x,y,1e-9), cvn(getPt<cv::Point2d>(p),x,y,1e-9) ), "double" ); check( And( cvn(p.getPt<cv::Point2f>(),x,y,1e-4), cvn(getPt<cv::Point2f>(p),x,y,1e-4) ), "float" ); check( And( cvn(p.getPt<cv::Point2i>(),x,y,1), cvn(getPt<cv::Point2i>(p),x,y,1) ), "int" ); }
}
CASE(to_cv_vector)
{
	Num x=in("x",-99,99), y=in("y",-99,99); int n=choose("n",4); Pts v; for( int i=0;i<n;i++ ) v.push_back( Point2d( x+i, y-2*i ) ); auto a=getPts<cv::Point2d>(v); auto b=getPts<BP2>(v); check( a.size()==(size_t)n && b.size()==(size_t)n, "count" ); if( a.size()!=(size_t)n || b.size()!=(size_t)n ) return;
	for( int i=0;i<n;i++ ) check( all( { cvn(a[i],x+i,y-2*i,1e-9), near(b[i].x(),x+i), near(b[i].y(),y-2*i) } ), "values" );
}
CASE(from_cv)
{
	Num x=in("x",-99,99), y=in("y",-99,99); cv::Point2d d(x,y); Point2d a(d), b=d, c(7,8); c=d; check( all( { nearpt(a,x,y), nearpt(b,x,y), nearpt(c,x,y) } ), "double" );
	cv::Point2f f(3.5,-2); cv::Point2i i(4,-7); Point2d g(f), h=i; check( And( nearpt(g,3.5,-2), nearpt(h,4,-7) ), "others" );
}
CASE(line_from_cv) { Num x=in("x",-99,99), y=in("y",-99,99); assume( ge( x*x+y*y, 0.01 ) ); Line2d l( cv::Point2d(x,y) ); check( all( { near(evalLine(l,Num(0),Num(0)),0), near(evalLine(l,x,y),0), near( sq(l.get()[0])+sq(l.get()[1]),1 ) } ), "line" ); }
// ---- matrices
static cv::Mat mat( const M3& m, int t, Num k ) { cv::Mat r(3,3,t); for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { if( t==CV_64F ) r.at<Num>(i,j)=m[i][j]*k; else r.at<float>(i,j)=m[i][j]*k; } return r; }
static void isMap( const Homogr& h, const M3& m, const std::string& w )
{
	static const Dir P[]={ {0,0},{1,0},{2,3},{-1,2} }; std::vector<Fm> f; for( auto& q:P ) { auto e=img3(m,q.x,q.y); Point2d r=h*Point2d(q.x,q.y); f.push_back( nearpt(r,e,1e-5) ); } check( all(f), w );
}
CASE(mat_to_h)
{
	int b=choose("base",6), t=choose("t",2)?CV_64F:CV_32F, f=choose("f",2); static const double K[]={1,-2,0.25}; int k=choose("k",3); Num v=in("v",1,3); M3 m=baseMat(b); m[0][2]=m[0][2]+v*m[2][2]; cv::Mat q=mat(m,t,K[k]);
	Homogr h; if( f ) h=q; else h=Homogr(q); isMap(h,m,"map"); check( !cv::rec().mismatch, "element-type" );
	Homogr e; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) e.set(i,j,m[i][j]); e.normalize(); check( e==h, "same-as-normalized" );
}
CASE(mat_to_used_h)
{
	// the target was already used, on a line and as a product
	int d=choose("d",4), b=choose("base",4); Num v=in("v",1,3); M3 m=baseMat(b); m[1][2]=m[1][2]+v; Homogr h; h.addTranslation(Num(5),Num(6)); Dir u=dirOf(d); Point2d p(1,2), q(1+u.x,2+u.y); Line2d l(p,q); Line2d w=h*l; (void)w;
	h=mat(m,CV_64F,1); Line2d r=h*l; auto s=img3(m,1,2), t=img3(m,Num(1+u.x),Num(2+u.y)); check( And( near(evalLine(r,s),0), near(evalLine(r,t),0) ), "line" );
	Homogr i=h; i.inverse(); check( nearpt( i*Point2d(s), 1,2, 1e-5 ), "inverse" );
}
CASE(h_to_mat)
{
	int t=choose("t",3), b=choose("base",6); Num v=in("v",1,3); M3 m=baseMat(b); m[0][1]=m[0][1]+v; Homogr h; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) h.set(i,j,m[i][j]); cv::Mat q; if( t==0 ) h.copyTo(q); else h.copyTo( q, t==1?CV_64F:CV_32F );
	check( q.rows==3 && q.cols==3 && q.type()==( t==2? CV_32F:CV_64F ), "shape" ); check( !cv::rec().mismatch, "element-type" ); if( q.rows!=3 || q.cols!=3 ) return;
	// the same map: proportional entries
	std::vector<Fm> f; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) { Num e= t==2? q.at<float>(i,j) : q.at<Num>(i,j); Num e22= t==2? q.at<float>(2,2) : q.at<Num>(2,2); f.push_back( near( e*m[2][2], m[i][j]*e22, 1e-4 ) ); f.push_back( near( e, h.value(i,j), 1e-5 ) ); } check( all(f), "values" );
}
CASE(mat_invalid)
{
	int k=choose("k",6); Num v=in("v",1,2); Homogr h; h.addTranslation(v,Num(4)); cv::Mat q; static const int S[][3]={ {2,3,CV_64F},{3,4,CV_64F},{4,3,CV_32F},{3,3,CV_64FC2},{3,3,CV_8U},{3,3,4} }; q.create(S[k][0],S[k][1],S[k][2]);
	check( throws( [&]{ h=q; } ), "rejected" ); check( throws( [&]{ Homogr g(q); (void)g; } ), "ctor-rejected" ); check( nearpt( h*Point2d(1,1), v+1, 5 ), "unchanged" );
	static const int B[]={0,4,16,111,7,14}; cv::Mat o; check( throws( [&]{ h.copyTo(o,B[k]); } ), "copy-rejected" );
}
CASE(mat_roundtrip) { int b=choose("base",6); Num v=in("v",-3,3); M3 m=baseMat(b); m[0][2]=m[0][2]+v*m[2][2]; Homogr h; for( int i=0;i<3;i++ ) for( int j=0;j<3;j++ ) h.set(i,j,m[i][j]); h.normalize(); cv::Mat q; h.copyTo(q); Homogr g=q; check( g==h, "equal" ); isMap(g,m,"map"); }
CASE(rect_of_mat) { static const int W[]={1,7,640,0}; int a=choose("a",4), b=choose("b",4); cv::Mat m( W[b], W[a], CV_8UC3 ); bool t=throws( [&]{ auto r=getFRect<Num>(m); auto p=r.getPts(); check( And( nearpt(p.first,0,0), nearpt(p.second,W[a],W[b]) ), "rect" ); } ); check( t==( a==3||b==3 ), "rejected" ); }
CASE(four_points)
{
	Num v=in("v",1,3); M3 m=baseMat(choose("base",6)); m[0][2]=m[0][2]+v*m[2][2]; cv::persp()=mat(m,CV_64F,1); cv::rec().src.clear(); Pts a{ {0,0},{v,1},{2,9},{-4,8} }, b{ {1,1},{12,3},{7,v},{2,6} }; int f=choose("f",3);
	Homogr h; if( f==0 ) h.buildFrom4Points(a,b); else if( f==1 ) h=buildFrom4Points(a,b); else h=buildFrom4Points(a,b,1); isMap(h,m,"map");
	auto& s=cv::rec().src; auto& d=cv::rec().dst; check( s.size()==4 && d.size()==4, "four" ); if( s.size()!=4 || d.size()!=4 ) return; std::vector<Fm> g; for( int i=0;i<4;i++ ) { g.push_back( cvn(s[i],a[i].getX(),a[i].getY(),1e-5) ); g.push_back( cvn(d[i],b[i].getX(),b[i].getY(),1e-5) ); } check( all(g), "correspondences" );
	Pts c(a); c.pop_back(); check( throws( [&]{ h.buildFrom4Points(c,b); } ) && throws( [&]{ h.buildFrom4Points(b,c); } ), "three-rejected" ); c=a; c.push_back(Point2d(1,1)); check( throws( [&]{ h.buildFrom4Points(c,b); } ) && throws( [&]{ h.buildFrom4Points(b,c); } ), "five-rejected" );
}
// ---- Boost.Geometry
template<class B> static void bpoint() { Num x=in("x",-99,99), y=in("y",-99,99); B b(x,y); Point2d p(b), q(1,2), r(3,4); q.set(b); r=b; check( all( { nearpt(p,x,y), nearpt(q,x,y), nearpt(r,x,y) } ), "import" ); Point2d s(x*2,y*2,Num(2)); B c=s.getPt<B>(), d=getPt<B>(s); check( all( { near(bg::get<0>(c),x), near(bg::get<1>(c),y), near(bg::get<0>(d),x), near(bg::get<1>(d),y) } ), "export" ); }
CASE(boost_point) { bpoint<BP1>(); }
CASE(boost_point_xy) { bpoint<BP2>(); }
template<class PG> static void bpoly( bool cw )
{
	int n=choose("n",3)+3, c=choose("closed",2), i=choose("i",n); Num x=in("x",-9,9), y=in("y",20,40); PG g; using B=typename PG::point_type; static const Dir S[]={ {0,0},{40,1},{35,12},{20,15},{-10,14} }; Pts e; for( int k=0;k<n;k++ ) e.push_back( Point2d( S[k].x,S[k].y ) ); e[i]=Point2d(x,y); if( cw ) std::reverse(e.begin(),e.end());
	for( auto& p:e ) bg::append( g.outer(), B(p.getX(),p.getY()) );
	if( c ) bg::append( g.outer(), B(e[0].getX(),e[0].getY()) );
	g.inners().resize(1); bg::append( g.inners()[0], B(1,1) );
	CPolyline p(g); check( p.size()==e.size(), "closed-count" ); if( p.size()==e.size() ) { std::vector<Fm> f; for( int k=0;k<n;k++ ) f.push_back( nearpt( p.getPts()[k], e[k] ) ); check( all(f), "closed-points" ); }
	bool t=throws( [&]{ OPolyline o(g); check( o.size()==e.size(), "open-count" ); if( o.size()==e.size() ) { std::vector<Fm> f; for( int k=0;k<n;k++ ) f.push_back( nearpt( o.getPts()[k], e[k] ) ); check( all(f), "open-points" ); } } ); check( t==(c==1), "open-rejected" );
}
CASE(boost_poly_1) { if( choose("cw",2) ) bpoly<bg::model::polygon<BP1,true,true>>(true); else bpoly<bg::model::polygon<BP1,false,false>>(false); }
CASE(boost_poly_2) { if( choose("cw",2) ) bpoly<bg::model::polygon<BP2,true,false>>(true); else bpoly<bg::model::polygon<BP2,false,true>>(false); }
CASE(boost_poly_empty) { bg::model::polygon<BP2> g; CPolyline c(g); OPolyline o(g); check( c.size()==0 && o.size()==0, "empty" ); }
// ---- drawing on an OpenCV image
#ifdef SYMX
static Num txt( const std::string& s ) { return h2d_stod(s); }
#else
static Num txt( const std::string& s ) { return std::stod(s); }
#endif
struct Exp { std::string n; std::vector<Num> a; };
static Fm opIs( const cv::Op& o, const Exp& e, double tol )
{
	if( o.n!=e.n || o.a.size()<e.a.size() ) return T(false); auto cmp=[&]( const std::vector<Num>& a ) { std::vector<Fm> f; for( size_t i=0;i<a.size();i++ ) f.push_back( near(o.a[i],a[i],tol) ); return all(f); };
	Fm r=cmp(e.a); if( e.n=="line" || e.n=="rect" ) r=Or( r, cmp({e.a[2],e.a[3],e.a[0],e.a[1]}) ); return r;
}
static void opsAre( const std::vector<Exp>& e, const std::string& w, double tol=1 )
{
	auto& v=cv::rec().ops; check( v.size()==e.size(), w+"-count" ); if( v.size()!=e.size() ) return;
	std::vector<Fm> f; for( auto& x:e ) { std::vector<Fm> g; for( auto& o:v ) g.push_back( opIs(o,x,tol) ); f.push_back( any(g) ); } check( all(f), w );
}
static void fresh() { cv::rec()=cv::Rec(); DP::resetDefault(); }
template<class O> static void drawIt( CvImg& im, const O& o, const DP& dp ) { int f=choose("f",3); if( f==0 ) o.draw(im,dp); else if( f==1 ) draw(im,o,dp); else im.draw(o,dp); }
static DP style( const cv::Op* o=nullptr ) { static int k; if( !o ) { k=choose("style",2); return k? DP().setColor(10,20,30).setThickness(3) : DP(); } if( k ) check( o->col[0]==30 && o->col[1]==20 && o->col[2]==10 && o->thick==3, "style" ); else check( o->thick==1, "style" ); return DP(); }
static void styled() { for( auto& o:cv::rec().ops ) style(&o); }
CASE(draw_circle) { fresh(); int k=choose("k",4), s=choose("show",2); Num x= s? in("x",1,99) : in("x",-400,3000), y= s? in("y",1,99) : in("y",-400,3000); static const int R[]={1,7,40,900}; CvImg im(200,100); auto dp=style(); dp.showPoints(s==1); drawIt( im, Circle(Point2d(x,y),Num(R[k])), dp ); std::vector<Exp> e{ {"circle",{x,y,R[k]}} }; if( s ) { e.push_back({"line",{x-5,y,x+5,y}}); e.push_back({"line",{x,y-5,x,y+5}}); } opsAre(e,"circle"); styled(); }
CASE(draw_rect) { fresh(); int s=choose("show",2); Num x= s? in("x",1,99) : in("x",-400,3000), y= s? in("y",1,49) : in("y",-400,3000), w=in("w",1,50); CvImg im(200,100); auto dp=style(); dp.showPoints(s==1); drawIt( im, FRect(x,y,x+w,y+20), dp ); std::vector<Exp> e{ {"rect",{x,y,x+w,y+20}} }; if( s ) for( int i=0;i<2;i++ ) { Num a=x+i*w, b=y+20*i; e.push_back({"line",{a-5,b,a+5,b}}); e.push_back({"line",{a,b-5,a,b+5}}); } opsAre(e,"rect"); styled(); }
CASE(draw_segment) { fresh(); int s=choose("show",2); Num x= s? in("x",6,99) : in("x",-400,3000), y= s? in("y",6,49) : in("y",-400,3000), w=in("w",6,93); CvImg im(200,100); auto dp=style(); dp.showPoints(s==1); drawIt( im, Segment(x,y,x+50,w), dp ); std::vector<Exp> e{ {"line",{x,y,x+50,w}} }; if( s ) for( int i=0;i<2;i++ ) { Num a=x+i*50, b=i?w:y; e.push_back({"line",{a-5,b,a+5,b}}); e.push_back({"line",{a,b-5,a,b+5}}); } opsAre(e,"segment"); styled(); }
CASE(draw_oseg) { fresh(); int d=choose("d",4); Num x=in("x",60,99), y=in("y",-9,9); Dir u=dirOf(d); if( choose("back",2) ) u=Dir{-u.x,-u.y}; double L= choose("len",2) ? 5 : 50; Num ex=x+L*u.x, ey=y+L*u.y, nx=-8*u.y, ny=8*u.x, bx=ex-8*u.x, by=ey-8*u.y; CvImg im(200,100); auto dp=style(); drawIt( im, OSegment(Point2d(x,y),Point2d(ex,ey)), dp ); opsAre( { {"line",{x,y,ex,ey}}, {"line",{x+nx,y+ny,x-nx,y-ny}}, {"line",{bx+nx,by+ny,ex,ey}}, {"line",{bx-nx,by-ny,ex,ey}} }, "oseg" ); styled(); }
CASE(draw_ellipse)
{
	fresh(); static const double A[]={0,30,90,135,-20}; int k=choose("k",5); Num x=in("x",20,80), y=in("y",20,80); CvImg im(200,100); auto dp=style(); Ellipse e( x,y,Num(12),Num(6),Num(A[k]*M_PI/180) ); drawIt( im, e, dp ); auto& v=cv::rec().ops; check( v.size()==1 && v[0].n=="ellipse", "one" ); if( v.size()!=1 || v[0].n!="ellipse" ) return; styled();
	auto& o=v[0].a; check( And( near(o[0],x,1), near(o[1],y,1) ), "center" ); check( And( near(o[2],12,1), near(o[3],6,1) ), "axes" ); check( And( near(o[5],0,1e-6), near(o[6],360,1e-6) ), "full" ); double c=std::cos(A[k]*M_PI/180), s=std::sin(A[k]*M_PI/180); Num g=o[4]*(M_PI/180); Num cr=std::cos(g)*s-std::sin(g)*c; check( near(cr,0,1e-4), "angle" );
}
CASE(draw_point)
{
	fresh(); static const img::PtStyle S[]={ img::PtStyle::Plus, img::PtStyle::Times, img::PtStyle::Star, img::PtStyle::Diam, img::PtStyle::Squ, img::PtStyle::Dot }; int k=choose("k",6), z=choose("size",3), D=5; Num x=in("x",0,199), y=in("y",0,99); CvImg im(200,100); auto dp=style(); dp.setPointStyle(S[k]); if( z==1 ) { dp.setPointSize(9); D=9; } if( z==2 ) { dp.setPointSize(3); D=3; }
	drawIt( im, Point2d(x,y), dp ); int q=std::lround(0.7*D); std::vector<Exp> plus{ {"line",{x-D,y,x+D,y}}, {"line",{x,y-D,x,y+D}} }, tim{ {"line",{x-q,y+q,x+q,y-q}}, {"line",{x+q,y+q,x-q,y-q}} }, star{ plus[0],plus[1],tim[0],tim[1] }, dia{ {"line",{x-D,y,x,y-D}}, {"line",{x,y-D,x+D,y}}, {"line",{x+D,y,x,y+D}}, {"line",{x-D,y,x,y+D}} }, squ{ {"line",{x-q,y-q,x+q,y-q}}, {"line",{x+q,y-q,x+q,y+q}}, {"line",{x+q,y+q,x-q,y+q}}, {"line",{x-q,y+q,x-q,y-q}} };
	opsAre( k==0? plus : k==1? tim : k==2? star : k==3? dia : k==4? squ : std::vector<Exp>{ {"circle",{x,y,z?D:4}} }, "point" ); styled();
}
CASE(draw_point_outside) { fresh(); int k=choose("k",4); Num a=in("a",0.5,90), b=in("b",1,90); CvImg im(200,100); Point2d p( k==0?-a : k==1? 200+a : b, k==2?-a : k==3? 100+a : b ); p.draw(im); check( cv::rec().ops.empty(), "none" ); }
CASE(draw_line)
{
	fresh(); int d=choose("d",6); Num t=in("t",-300,500); CvImg im(200,100); auto dp=style(); if( choose("show",2) ) dp.showPoints(); Dir u=dirOf(d); bool h= u.y==0; Line2d l( h? Point2d(0,t):Point2d(t,0), h? Point2d(u.x,t+u.y):Point2d(t+u.x,u.y) ); Pts e, r{ {0,0},{199,0},{199,99},{0,99} };
	Num px=h?Num(0):t, py=h?t:Num(0); for( auto& s:sidesOf(r,true) ) crossingLine( Num(-u.y), Num(u.x), u.y*px-u.x*py, s, e, 0.5 );
	drawIt( im, l, dp ); if( e.size()==2 ) opsAre( { {"line",{e[0].getX(),e[0].getY(),e[1].getX(),e[1].getY()}} }, "cut" ); else check( cv::rec().ops.empty(), "none" ); styled();
}
CASE(draw_polyline)
{
	fresh(); int c=choose("closed",2), i=choose("i",4), s=choose("index",2); Num x=in("x",1,99), y=in("y",20,90); Pts p{ {10,10}, {40,11}, {35,22}, {5,25} }; for( int k=0;k<4;k++ ) if( k!=i ) assume( ge( sq(x-p[k].getX())+sq(y-p[k].getY()), 0.01 ) ); p[i]=Point2d(x,y); CvImg im(200,100); auto dp=style(); dp.showIndex(s==1);
	std::vector<Exp> e; for( int k=0;k<3+c;k++ ) e.push_back( {"line",{p[k].getX(),p[k].getY(),p[(k+1)%4].getX(),p[(k+1)%4].getY()}} ); if( s ) for( auto& q:p ) e.push_back( {"text",{q.getX(),q.getY()}} );
	if( c ) drawIt( im, CPolyline(p), dp ); else drawIt( im, OPolyline(p), dp ); opsAre(e,"polyline"); for( auto& o:cv::rec().ops ) if( o.n=="line" ) style(&o);
	if( s ) { int n=0; for( auto& o:cv::rec().ops ) if( o.n=="text" ) { check( o.text==std::to_string(n), "index" ); if( n<4 ) check( And( near(o.a[0],p[n].getX(),1), near(o.a[1],p[n].getY(),1) ), "index-place" ); n++; } }
}
CASE(draw_polyline_small) { fresh(); Num x=in("x",1,99); CvImg im(200,100); OPolyline e, o( Pts{ {0,0},{x,30} } ); CPolyline c; e.draw(im); c.draw(im); check( cv::rec().ops.empty(), "empty" ); o.draw(im); opsAre( { {"line",{Num(0),Num(0),x,Num(30)}} }, "two" ); }
CASE(draw_sets)
{
	fresh(); Num x=in("x",1,50), y=in("y",30,60); CvImg im(200,100); int k=choose("k",3); if( k==0 ) { std::vector<Segment> v{ {Num(1),Num(2),x,Num(20)}, {Num(5),Num(6),Num(40),y} }; draw(im,v); opsAre( { {"line",{Num(1),Num(2),x,Num(20)}}, {"line",{Num(5),Num(6),Num(40),y}} }, "segments" ); }
	if( k==1 ) { auto p=std::make_pair( Circle(Point2d(x,y),Num(4)), Circle(Point2d(y,x),Num(9)) ); draw(im,p); opsAre( { {"circle",{x,y,Num(4)}}, {"circle",{y,x,Num(9)}} }, "pair" ); }
	if( k==2 ) { std::vector<Circle> v{ Circle(Point2d(x,y),Num(4)), Circle(Point2d(y,x),Num(9)) }; draw(im,v); opsAre( { {"circle",{x,y,Num(4)}}, {"circle",{y,x,Num(9)}} }, "circles" ); }
}
CASE(draw_text) { fresh(); Num x=in("x",1,99), y=in("y",1,99); CvImg im(200,100); int f=choose("f",2), s=choose("size",2)?40:20; DP dp; dp.setColor(1,2,3).setFontSize(s); if( f ) drawText(im,"hello",Point2d(x,y),dp); else im.drawText("hello",Point2d_<float>(20,30),dp); auto& v=cv::rec().ops; check( v.size()==1 && v[0].n=="text" && v[0].text=="hello", "text" ); if( v.size()!=1 ) return; if( f ) check( And( near(v[0].a[0],x,1), near(v[0].a[1],y,1) ), "place" ); else check( And( near(v[0].a[0],20,1), near(v[0].a[1],30,1) ), "place" ); check( near(v[0].a[2],0.03*s,1e-6), "scale" ); check( v[0].col[0]==3 && v[0].col[1]==2 && v[0].col[2]==1, "color" ); }
CASE(image)
{
	fresh(); static const int S[]={3,64,500}; int a=choose("a",3), b=choose("b",3); CvImg im(S[a],S[b]); check( im.cols()==S[a] && im.rows()==S[b] && im.getReal().cols==S[a] && im.getReal().rows==S[b] && im.getReal().type()==CV_8UC3, "size" ); auto& f=im.getReal().fill; check( f[0]==255 && f[1]==255 && f[2]==255, "white" );
	im.clear( img::Color(1,2,3) ); auto& g=im.getReal().fill; check( g[0]==3 && g[1]==2 && g[2]==1, "clear-color" ); im.clear( 9,8,7 ); check( g[0]==7 && g[1]==8 && g[2]==9, "clear-rgb" ); im.clear( 5 ); check( g[0]==5 && g[1]==5 && g[2]==5, "clear-gray" );
	im.setSize( S[b]+1, S[a]+2 ); check( im.cols()==S[b]+1 && im.rows()==S[a]+2 && im.getReal().cols==S[b]+1 && im.getReal().rows==S[a]+2, "resize" ); im.setSize( std::make_pair(30,40) ); check( im.cols()==30 && im.rows()==40 && im.getReal().cols==30 && im.getReal().rows==40, "resize-pair" );
	im.write("a.png"); im.show("win"); auto& n=cv::rec().names; check( n.size()==2 && n[0]=="w:a.png" && n[1]=="s:win", "names" );
}
CASE(draw_polyline_points)
{
	fresh(); int c=choose("closed",2); Num x=in("x",6,90), y=in("y",30,90); Pts p{ {10,10}, {40,11}, {x,y} }; CvImg im(200,100); DP dp; dp.showPoints(); if( c ) drawIt( im, CPolyline(p), dp ); else drawIt( im, OPolyline(p), dp ); auto& v=cv::rec().ops; std::vector<Fm> f;
	std::vector<Exp> e; for( int k=0;k<2+c;k++ ) e.push_back( {"line",{p[k].getX(),p[k].getY(),p[(k+1)%3].getX(),p[(k+1)%3].getY()}} ); for( auto& q:p ) { Num a=q.getX(), b=q.getY(); e.push_back({"line",{a-5,b,a+5,b}}); e.push_back({"line",{a,b-5,a,b+5}}); }
	for( auto& z:e ) { std::vector<Fm> g; for( auto& o:v ) g.push_back( opIs(o,z,1) ); f.push_back( any(g) ); } check( all(f), "all" ); f.clear(); for( auto& o:v ) { check( o.n=="line", "kind" ); std::vector<Fm> g; for( auto& q:p ) g.push_back( And( And( le(o.a[0],q.getX()+6), ge(o.a[0],q.getX()-6) ), And( le(o.a[1],q.getY()+6), ge(o.a[1],q.getY()-6) ) ) ); f.push_back( any(g) ); } check( all(f), "only" );
}
CASE(draw_polyline_angles)
{
	fresh(); int c=choose("closed",2); Num x=in("x",20,60), y=in("y",30,60); Pts p{ {10,10}, {90,11}, {x,y}, {5,70} }; CvImg im(200,100); DP dp; dp.showAngles(); if( c ) drawIt( im, CPolyline(p), dp ); else drawIt( im, OPolyline(p), dp ); int n=0; std::vector<Fm> f, g;
	for( auto& o:cv::rec().ops ) if( o.n=="text" ) { int m=(n+1)%4; if( n<4 ) { f.push_back( And( near(o.a[0],p[m].getX(),1), near(o.a[1],p[m].getY(),1) ) ); Num a=txt(o.text)*(M_PI/180); g.push_back( near( a, getAngle(OSegment(p[(m+3)%4],p[m]),OSegment(p[m],p[(m+1)%4])), 1e-3 ) ); } n++; } check( n==(c?4:2), "count" ); check( all(f), "places" ); check( all(g), "angles" );
}
CASE(draw_sets_index)
{
	fresh(); Num x=in("x",6,50), y=in("y",30,60); CvImg im(200,100); int k=choose("k",4), s=choose("index",2); DP dp; dp.showIndex(s==1); Pts at; auto arr=[&]( const auto& v ) { draw(im,v,dp); };
	if( k==0 ) { at={ Point2d(x,y), Point2d(20,9) }; arr(at); } else if( k==1 ) { std::vector<Segment> v{ {Num(1),Num(2),x,Num(20)}, {Num(5),Num(6),Num(40),y} }; arr(v); at={ v[0].getCenter(), v[1].getCenter() }; } else if( k==2 ) { at={ Point2d(x,y), Point2d(20,9) }; arr( std::array<Point2d,2>{ at[0], at[1] } ); } else { std::vector<Circle> v{ Circle(Point2d(x,y),Num(4)) }; arr(v); }
	int n=0; for( auto& o:cv::rec().ops ) if( o.n=="text" ) { check( o.text==std::to_string(n), "index" ); if( (size_t)n<at.size() ) check( And( near(o.a[0],at[n].getX(),1), near(o.a[1],at[n].getY(),1) ), "index-place" ); n++; } check( (size_t)n==( s? at.size() : 0 ), "count" );
}
CASE(draw_sets_function)
{
	fresh(); Num x=in("x",6,50), y=in("y",30,60); CvImg im(200,100); std::vector<Circle> v{ Circle(Point2d(x,y),Num(4)), Circle(Point2d(y,x),Num(9)), Circle(Point2d(x,x),Num(5)) }; int seen=0; std::function<DP(int)> f=[&]( int i ) { check( i==seen, "order" ); seen++; return DP().setColor(i,10*i,20*i).setThickness(i+1); }; draw(im,v,f);
	auto& o=cv::rec().ops; check( o.size()==3, "count" ); if( o.size()!=3 ) return; for( int i=0;i<3;i++ ) check( o[i].col[0]==20*i && o[i].col[1]==10*i && o[i].col[2]==i && o[i].thick==i+1, "style" ); opsAre( { {"circle",{x,y,Num(4)}}, {"circle",{y,x,Num(9)}}, {"circle",{x,x,Num(5)}} }, "circles" );
}
