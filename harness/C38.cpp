#include "geom.hpp"
using CT=std::vector<CommonTypeD>;
static CT import( const std::string& body )
{
	tinyxml2::XMLDocument doc; auto e=doc.Parse( ( "<svg width=\"300\" height=\"200\">"+body+"</svg>" ).c_str() ); check( e==tinyxml2::XML_SUCCESS, "parsed" );
	svg::Visitor v; doc.Accept(&v); return v.get();
}
static std::string at( const std::string& n, Num v ) { return " "+n+"=\""+tok(v)+"\""; }
static std::string P( Num x, Num y, const char* sep="," ) { return tok(x)+sep+tok(y); }
template<class T> const T* one( const CT& v, const std::string& w ) { check( v.size()==1, w+"-one" ); if( v.size()!=1 ) return nullptr; auto p=std::get_if<T>(&v[0]); check( p!=nullptr, w+"-type" ); return p; }
template<class PL> void pts( const PL& p, const Pts& e, const std::string& w )
{ const auto& v=p.getPts(); check( v.size()==e.size(), w+"-count" ); if( v.size()!=e.size() ) return; std::vector<Fm> f; for( size_t i=0;i<e.size();i++ ) f.push_back( nearpt(v[i],e[i]) ); check( all(f), w+"-points" ); }
static void vec( const std::vector<Point2d>& v, const Pts& e, const std::string& w )
{ check( v.size()==e.size(), w+"-count" ); if( v.size()!=e.size() ) return; std::vector<Fm> f; for( size_t i=0;i<e.size();i++ ) f.push_back( nearpt(v[i],e[i]) ); check( all(f), w+"-points" ); }
// a number printed in decimal form, without exponent
static Num inn( const char* n, double lo, double hi ) { Num v=in(n,lo,hi); clearly(v,0.01); return v; }
// ---- elements
CASE(circle)
{
	Num x=inn("x",-99,99), y=inn("y",-99,99), r=inn("r",0.1,50); int o=choose("o",2); auto v=import( o? "<circle"+at("cx",x)+at("cy",y)+at("r",r)+"/>" : "<circle"+at("r",r)+" fill='none'"+at("cy",y)+at("cx",x)+"/>" );
	if( auto c=one<CircleD>(v,"circle") ) check( And( nearpt(c->center(),x,y), near(c->radius(),r) ), "circle" );
}
CASE(rect)
{
	Num x=inn("x",-99,99), y=inn("y",-99,99), w=inn("w",0.1,50), h=inn("h",0.1,50); auto v=import( "<rect"+at("x",x)+at("y",y)+at("width",w)+at("height",h)+"/>" );
	if( auto c=one<FRectD>(v,"rect") ) check( And( nearpt(c->getPts().first,x,y), nearpt(c->getPts().second,x+w,y+h) ), "rect" );
}
CASE(line)
{
	Num x=inn("x",-99,99), y=inn("y",-99,99), u=inn("u",0.1,50), w=inn("w",-50,50); auto v=import( "<line"+at("x1",x)+at("y1",y)+at("x2",x+u)+at("y2",w)+"/>" );
	if( auto c=one<SegmentD>(v,"line") ) { auto q=c->getPts(); check( Or( And( nearpt(q.first,x,y), nearpt(q.second,x+u,w) ), And( nearpt(q.second,x,y), nearpt(q.first,x+u,w) ) ), "line" ); }
}
// an ellipse is known by its center, axes and the points on it
static void sameEll( const EllipseD& e, Num x, Num y, Num a, Num b, double deg, const std::string& w )
{
	check( nearpt(e.getCenter(),x,y,1e-5), w+"-center" ); auto m=e.getMajMin(); bool s=branch( lt(a,b) ); check( And( near(m.first,s?b:a,1e-5), near(m.second,s?a:b,1e-5) ), w+"-axes" );
	double c=std::cos(deg*M_PI/180), n=std::sin(deg*M_PI/180); auto l=e.getAxisLines(); // both axis lines go through the ends of the axes
	std::vector<Fm> f; for( int i=0;i<2;i++ ) for( int j:{-1,1} ) { Num px= i? -n*b*j : c*a*j, py= i? c*b*j : n*a*j; f.push_back( near( evalLine( (i==0)!=s? l.first:l.second, x+px, y+py ), 0, 1e-4 ) ); }
	check( all(f), w+"-on" );
}
CASE(ellipse_plain)
{
	int k=choose("k",4); Num x=in("x",-9,9), y=in("y",-9,9); double a=k<2? 5:2, b=k%2? 1.5:3; auto v=import( "<ellipse"+at("cx",x)+at("cy",y)+at("rx",a)+at("ry",b)+"/>" ); clearly(x,0.01); clearly(y,0.01);
	if( auto e=one<EllipseD>(v,"ellipse") ) sameEll(*e,x,y,a,b,0,"plain");
}
CASE(ellipse_axes)
{
	int k=choose("k",2); Num a=in("a",1,9), b=in("b",1,9); away(a-b,0.1); auto v=import( std::string("<ellipse")+" cx='3' cy='-2'"+at("rx",a)+at("ry",b)+(k? " transform='rotate(90,3,-2)'" : "")+"/>" );
	if( auto e=one<EllipseD>(v,"ellipse") ) sameEll(*e,3,-2,a,b,k?90:0,"axes");
}
CASE(ellipse_rotated)
{
	static const double dg[]={ 20,90,-45,135,0 }; int k=choose("k",5), s=choose("s",2); Num x=inn("x",-9,9); double a=s?2:6, b=3, y=4;
	auto v=import( "<ellipse"+at("cx",x)+at("cy",y)+at("rx",a)+at("ry",b)+" transform=\"rotate("+tok(dg[k])+","+tok(x)+","+tok(y)+")\"/>" );
	if( auto e=one<EllipseD>(v,"ellipse") ) sameEll(*e,x,y,a,b,dg[k],"rotated");
}
CASE(ellipse_around)
{
	static const double dg[]={ 90,180,-90,0 }; static const int C[]={0,-1,0,1}, S[]={1,0,-1,0}; int k=choose("k",4); Num u=inn("u",-9,9); double x=3, y=1, a=4, b=2, w=-2;
	auto v=import( "<ellipse"+at("cx",x)+at("cy",y)+at("rx",a)+at("ry",b)+" transform=\"rotate("+tok(dg[k])+","+tok(u)+","+tok(w)+")\"/>" );
	if( auto e=one<EllipseD>(v,"ellipse") ) sameEll(*e,u+C[k]*(x-u)-S[k]*(y-w),w+S[k]*(x-u)+C[k]*(y-w),a,b,dg[k],"around");
}
CASE(ellipse_bad)
{
	Num x=inn("x",-9,9); for( auto t:{ "rotate(20)","rotate(20,1)","translate(1,2)","rotate(a,1,2)","","rotate" } ) check( throws([&]{ import( "<ellipse"+at("cx",x)+" cy='1' rx='3' ry='2' transform='"+t+"'/>" ); }), "bad-transform" );
}
CASE(polygon)
{
	int c=choose("closed",2), i=choose("i",4), l=choose("last",2), sp=choose("space",2); Num x=inn("x",-9,9), y=inn("y",20,30); Pts p{ {0,0}, {40,1}, {35,12}, {-10,15} }; p[i]=Point2d(x,y); std::string s; for( auto& q:p ) s+=P(q.getX(),q.getY())+" "; if( l && c ) s+=P(p[0].getX(),p[0].getY())+" "; if( !sp ) s.pop_back();
	auto v=import( std::string(c? "<polygon":"<polyline")+" fill='none' points=\""+s+"\"/>" );
	if( c ) { if( auto e=one<CPolylineD>(v,"polygon") ) pts(*e,p,"polygon"); } else { if( auto e=one<OPolylineD>(v,"polyline") ) pts(*e,p,"polyline"); }
}
CASE(polygon_bad)
{
	Num x=inn("x",-9,9); for( auto n:{"polygon","polyline"} ) { std::string a="<"+std::string(n)+" points=\""; check( throws([&]{ import( a+P(x,1)+" 3,4 5\"/>" ); }), "odd" ); check( throws([&]{ import( a+P(x,1)+" 3,4,5 5,6\"/>" ); }), "three" ); check( throws([&]{ import( a+P(x,1)+" 3,b 5,6\"/>" ); }), "letter" );
		check( throws([&]{ import( "<"+std::string(n)+at("x",x)+"/>" ); }), "none" ); }
	try { auto v=import("<polygon points=\"\"/>"); check( v.empty() || ( v.size()==1 && std::get_if<CPolylineD>(&v[0]) && std::get_if<CPolylineD>(&v[0])->size()==0 ), "empty" ); } catch( const std::exception& ) {}
}
CASE(missing)
{
	Num x=inn("x",0.1,9); static const char* A[4][5]={ {"circle","cx","cy","r",0}, {"rect","x","y","width","height"}, {"line","x1","y1","x2","y2"}, {"ellipse","cx","cy","rx","ry"} };
	int k=choose("k",4), n= k? 4:3, m=choose("m",n); std::string s="<"+std::string(A[k][0]), b=s; for( int i=0;i<n;i++ ) { if( i!=m ) s+=at(A[k][i+1],x+i*7); if( i!=m ) b+=at(A[k][i+1],x+i*7); else b+=std::string(" ")+A[k][i+1]+"='abc'"; }
	check( throws([&]{ import(s+"/>"); }), "missing" ); check( throws([&]{ import(b+"/>"); }), "not-a-number" ); check( throws([&]{ import("<path"+at("x",x)+"/>"); }), "path-without-d" );
}
// several elements, groups, unknown elements: in the order of the document
CASE(document)
{
	Num x=inn("x",-99,99), y=inn("y",-99,99); auto v=import( "<style>a</style><g><circle"+at("cx",x)+" cy='1' r='2'/><g>\n<line x1='0' y1='0' x2='5'"+at("y2",y)+"/></g></g><text x='1' y='2'>t</text><rect"+at("x",x)+at("y",y)+" width='4' height='5'/><path d=\"M 0 0 L 5 "+tok(y)+" z\"/><polyline points=\"0,0 7,"+tok(y)+"\"/><foo/>" );
	check( v.size()==5, "count" ); if( v.size()!=5 ) return;
	auto c=std::get_if<CircleD>(&v[0]); auto s=std::get_if<SegmentD>(&v[1]); auto r=std::get_if<FRectD>(&v[2]); auto p=std::get_if<CPolylineD>(&v[3]); auto o=std::get_if<OPolylineD>(&v[4]); check( c&&s&&r&&p&&o, "types" ); if( !(c&&s&&r&&p&&o) ) return;
	check( And( nearpt(c->center(),x,1), near(c->radius(),2) ), "circle" ); check( nearpt(s->getPts().second,5,y), "line" ); check( nearpt(r->getPts().first,x,y), "rect" ); pts(*p,{ {0,0},{Num(5),y} },"path"); pts(*o,{ {0,0},{Num(7),y} },"polyline");
}
CASE(size)
{
	Num w=inn("w",1,999), h=inn("h",1,999); int o=choose("o",3); tinyxml2::XMLDocument doc; std::string s="<svg"+( o==0? at("width",w)+at("height",h) : o==1? at("height",h)+" a='3'"+at("width",w) : at("width",w) )+"><g/></svg>"; doc.Parse(s.c_str());
	if( o==2 ) { check( throws([&]{ svg::getImgSize(doc); }), "no-height" ); return; }
	auto p=svg::getImgSize(doc); check( And( near(p.first,w), near(p.second,h) ), "size" );
}
// ---- paths: programs of commands against an interpreter of the SVG specification
struct Ref { std::vector<Pts> out; Point2d cur{0,0}, start{0,0}; bool open=false; bool closed=false;
	void add( Num x, Num y ) { if( !open ) { out.push_back({}); open=true; if( !moved ) { out.back().push_back(cur); } start= moved? Point2d(x,y) : cur; moved=false; } cur=Point2d(x,y); out.back().push_back(cur); closed=false; }
	bool moved=false;
	void run( char c, const std::vector<Num>& v )
	{
		bool rel= c>='a'; char u= rel? c-32 : c;
		if( u=='Z' ) { cur=start; open=false; closed=true; return; }
		if( u=='H' ) { for( auto& a:v ) add( rel? cur.getX()+a : a, cur.getY() ); return; }
		if( u=='V' ) { for( auto& a:v ) add( cur.getX(), rel? cur.getY()+a : a ); return; }
		if( u=='M' ) { open=false; moved=true; }
		for( size_t i=0;i+1<v.size();i+=2 ) add( rel? cur.getX()+v[i] : v[i], rel? cur.getY()+v[i+1] : v[i+1] );
	} };
struct Cmd { char c; std::vector<Num> v; };
static std::string text( const std::vector<Cmd>& p, int style )
{
	std::string s; bool first=true;
	for( auto& q:p )
	{
		if( style!=1 && !first ) s+=" "; first=false; s+=q.c; if( style==0 && !q.v.empty() ) s+=" ";
		for( size_t i=0;i<q.v.size();i++ ) { if( i ) s+= style==2 && i%2 ? "," : style==3? " , " : " "; s+=tok(q.v[i]); }
	}
	if( style==3 ) s+=" ";
	return s;
}
static void path( const std::vector<Cmd>& p, int style, const std::string& w, bool doc=false )
{
	Ref r; for( auto& q:p ) r.run(q.c,q.v);
	for( auto& v:r.out ) { Pts u; for( auto& q:v ) { if( !u.empty() ) { Num dx=q.getX()-u.back().getX(), dy=q.getY()-u.back().getY(); clearly(dx,0.01); clearly(dy,0.01); if( branch( And( eq(dx,0), eq(dy,0) ) ) ) continue; } u.push_back(q); } v=u; if( doc ) assume( absge( v.back().getX()-v[0].getX(), 0.01 ) ); }
 std::string s=text(p,style);
	auto g=svg::svgp::parsePath( s.c_str() ); check( g.first.size()==r.out.size(), w+"-subpaths" ); check( g.second==r.closed, w+"-closed" ); if( g.first.size()!=r.out.size() ) return;
	for( size_t i=0;i<r.out.size();i++ ) vec( g.first[i], r.out[i], w );
	if( !doc ) return;
	auto v=import( "<path d=\""+s+"\"/>" ); check( v.size()==r.out.size(), w+"-doc-count" ); if( v.size()!=r.out.size() ) return;
	for( size_t i=0;i<v.size();i++ ) { auto c=std::get_if<CPolylineD>(&v[i]); auto o=std::get_if<OPolylineD>(&v[i]); check( r.closed? c!=nullptr : o!=nullptr, w+"-doc-type" ); if( c && r.closed ) pts(*c,r.out[i],w+"-doc"); if( o && !r.closed ) pts(*o,r.out[i],w+"-doc"); }
}
CASE(path_lines)
{
	int a=choose("a",2), b=choose("b",2), z=choose("z",3), st=choose("style",4); Num x=inn("x",-50,50), y=inn("y",1,50); std::vector<Cmd> p{ { a?'m':'M', {x,y} }, { b?'l':'L', {3,70,95,85} } }; if( z ) p.push_back( { z==1?'z':'Z', {} } ); path(p,st,"lines",true);
}
CASE(path_hv)
{
	int a=choose("a",4), b=choose("b",4), st=choose("style",TH(2,4)); static const char C[]="HhVv"; Num x=inn("x",0.1,50), y=inn("y",51,99); std::vector<Cmd> p{ { 'M', {-7,-8} }, { C[a], {x} }, { C[b], {y,110} }, { 'l', {1,2} }, { 'h', {x,-9} }, { 'V', {-30,y} }, { 'v', {4} } }; path(p,st,"hv",true);
}
// moves inside, implied line commands, closed subpaths
CASE(path_moves)
{
	int a=choose("a",2), b=choose("b",2), c=choose("c",3), st=choose("style",TH(2,4)); Num x=inn("x",0.1,50), y=inn("y",51,99); std::vector<Cmd> p{ { a?'m':'M', {x,5,10,y,3,2} } }; if( c ) p.push_back({ c==1?'z':'Z', {} }); p.push_back( { b?'m':'M', {4,y,x,60} } ); p.push_back( { 'h', {x} } ); p.push_back( { 'z', {} } ); path(p,st,"moves",true);
}
CASE(path_programs)
{
	static const char C[]="MmLlHhVvZ"; int n=TH(3,4); std::vector<Cmd> p{ { 'M', {1,2} }, { 'l', { inn("x0",3,9), 5 } } };
	for( int i=0;i<n;i++ ) { int k=choose( ("c"+std::to_string(i)).c_str(), 9 ); std::string nm="v"+std::to_string(i); Num v=in( nm.c_str(), 11+20*i, 29+20*i ); if( k<4 ) p.push_back( { C[k], {v,-7.0-i} } ); else if( k<8 ) p.push_back( { C[k], {v} } ); else { p.push_back( { 'z', {} } ); p.push_back( { 'm', {v,3} } ); } }
	p.push_back( { 'l', {2,-1} } ); path(p,0,"program");
}
// values separated by a sign or a decimal point
CASE(path_signs)
{
	Num x=inn("x",0.5,50), y=inn("y",0.5,50); std::string X=tok(x), Y=tok(y); auto g=svg::svgp::parsePath( ( "M"+X+"-"+Y+"l1-2 -"+X+"-3-4,"+Y+"-.5.25" ).c_str() );
	check( g.first.size()==1, "signs-subpaths" ); if( g.first.size()!=1 ) return; vec( g.first[0], { {x,-y}, {x+1,-y-2}, {Num(1),-y-5}, {Num(-3),Num(-5)}, {-3.5,-4.75} }, "signs" );
}
// consecutive equal points are given once
CASE(path_dupes)
{
	Num x=inn("x",1,50); std::vector<Pts> e{ { {x,Num(2)}, {x+3,Num(2)}, {x+3,Num(9)} } }; auto g=svg::svgp::parsePath( ( "M "+tok(x)+" 2 l 0 0 3 0 0 0 0 0 0 7 h 0 v 0" ).c_str() ); check( g.first.size()==1, "dupes-subpaths" ); if( g.first.size()==1 ) vec( g.first[0], e[0], "dupes" );
}
CASE(path_bad)
{
	Num x=inn("x",1,50); std::string X=tok(x); err::printWarnings()=false;
	for( auto t:{ "M "+X+" 2 L 3", "M "+X, "M "+X+" 2 C 1 2 3 4 5 6", "M "+X+" 2 x 3 4", "M "+X+" 2 l 3 4 5 z", "M 1 2 A "+X, "M 1 2 3 "+X+" z 5", "M 1 2 3 4 q 1 2 3 "+X, "M 1 2 & 3 "+X, "M 1 2 t 3 "+X, "M 1 2 S 3 4 5 "+X } ) { check( throws([&]{ svg::svgp::parsePath(t.c_str()); }), "bad" );
		if( t.find('&')==std::string::npos ) { auto v=import( "<path d=\""+t+"\"/><circle cx='1' cy='2' r='3'/>" ); check( v.size()==1 && std::get_if<CircleD>(&v[0]), "bad-doc" ); } }
	check( throws([&]{ svg::svgp::parsePath(""); }), "empty" );
}
CASE(path_spaces)
{
	int k=choose("k",4); Num x=inn("x",1,50); static const char* T[]={ ""," "," , ","   " }; std::string s="M "+tok(x)+" 2 3 4 h 5"; auto g=svg::svgp::parsePath( ( T[k]+s+T[3-k] ).c_str() ); check( g.first.size()==1, "spaces-subpaths" ); if( g.first.size()==1 ) vec( g.first[0], { {x,Num(2)}, {3,4}, {8,4} }, "spaces" );
}
// paths coming back explicitly to their first point
CASE(path_back)
{
	int z=1+choose("z",2), st=choose("style",4); Num x=inn("x",-50,50), y=inn("y",7,50); std::string s=text( { {'M',{x,2}}, {'L',{5,6,9,y,x,2}} }, st ); if( z ) s+= z==1? "z":" Z"; auto v=import( "<path d=\""+s+"\"/>" ); check( v.size()==1, "back-one" ); if( v.size()!=1 ) return;
	auto c=std::get_if<CPolylineD>(&v[0]); auto o=std::get_if<OPolylineD>(&v[0]); check( z? c!=nullptr : o!=nullptr, "back-type" ); if( z && c ) pts(*c,{ {x,Num(2)},{5,6},{Num(9),y} },"back-closed");
}
// any white space between the values, exponents, plus signs
CASE(path_layout)
{
	int k=choose("k",5); Num x=inn("x",1,50); static const char* T[]={ "\n","\t"," \r\n ",",\n\t","  ," }; std::string t=T[k], X=tok(x); auto g=svg::svgp::parsePath( ( "M"+t+X+t+"2"+t+"L 3e1"+t+"4E-1 +5+6e+0-7e0-25e-1"+t+"h"+t+"1.5e1"+t ).c_str() ); check( g.first.size()==1, "layout-subpaths" ); if( g.first.size()==1 ) vec( g.first[0], { {x,Num(2)}, {30,0.4}, {5,6}, {-7,-2.5}, {8,-2.5} }, "layout" );
	auto v=import( "<path d=\"m"+t+X+" 2"+t+"1e1 1e0 z\"/>" ); if( auto c=one<CPolylineD>(v,"layout") ) pts(*c,{ {x,Num(2)},{x+10,Num(3)} },"layout");
	for( auto b:{ "M 1e 2 3 4", "M e1 2 3 4", "M 1e2e3 4 5" } ) check( throws([&]{ svg::svgp::parsePath(b); }), "bad-exponent" );
}
CASE(points_layout)
{
	int k=choose("k",5), c=choose("closed",2); Num x=inn("x",-9,9), y=inn("y",20,30); static const char* T[]={ "\n","\t"," \r\n ","  ","\n\n\t" }; std::string t=T[k], b= k%2? t:""; Pts p{ {0,0}, {x,y}, {35,12}, {-10,15} }; auto v=import( std::string(c? "<polygon":"<polyline")+" points=\""+b+"0,0"+t+P(x,y)+t+"3.5e1,12"+t+"-1e+1,15"+b+"\"/>" );
	if( c ) { if( auto e=one<CPolylineD>(v,"polygon") ) pts(*e,p,"polygon"); } else { if( auto e=one<OPolylineD>(v,"polyline") ) pts(*e,p,"polyline"); }
}
// values before any command: absolute positions
CASE(path_bare)
{
	int z=choose("z",2), m=choose("m",2); Num x=inn("x",1,50), y=inn("y",3,50); auto g=svg::svgp::parsePath( ( tok(x)+" 2 3,"+tok(y)+( m? " H 60 70":" m 1 2 3 4" )+( z? "z":"" ) ).c_str() ); check( g.second==(z==1), "bare-closed" ); check( g.first.size()==( m?1u:2u ), "bare-subpaths" ); if( g.first.size()!=( m?1u:2u ) ) return;
	if( m ) vec( g.first[0], { {x,Num(2)}, {Num(3),y}, {Num(60),y}, {Num(70),y} }, "bare" ); else { vec( g.first[0], { {x,Num(2)}, {Num(3),y} }, "bare" ); vec( g.first[1], { {Num(4),y+2}, {Num(7),y+6} }, "bare-next" ); }
}
// two points, and back
CASE(path_back_two)
{
	int z=1+choose("z",2); Num x=inn("x",-50,50), y=inn("y",7,50); auto v=import( "<path d=\"M"+P(x,2)+" L 5 "+tok(y)+" "+P(x,2)+(z==1?"z":" Z")+"\"/>" ); check( v.size()==1, "one" ); if( v.size()!=1 ) return;
	auto c=std::get_if<CPolylineD>(&v[0]); check( c!=nullptr, "type" ); if( c ) pts(*c,{ {x,Num(2)},{Num(5),y} },"closed");
}
// moves that draw nothing
CASE(path_lone_moves)
{
	int k=choose("k",4), z=choose("z",2); Num x=inn("x",-50,50), y=inn("y",7,50); static const char* A[]={ "M 1 2 ","M 3 3 m 4 5 ","","M 1 1 M 2 2 M 3 3 " }; auto v=import( std::string("<path d=\"")+A[k]+"M"+P(x,2)+" L 5 "+tok(y)+" 60 70"+( z? " z":"" )+( k==2&&!z? " M 8 9":"" )+"\"/><circle cx='1' cy='2' r='3'/>" ); check( v.size()==2, "one" ); if( v.size()!=2 ) return; Pts e{ {x,Num(2)},{Num(5),y},{60,70} };
	if( z ) { auto c=std::get_if<CPolylineD>(&v[0]); check( c!=nullptr, "type" ); if( c ) pts(*c,e,"closed"); } else { auto c=std::get_if<OPolylineD>(&v[0]); check( c!=nullptr, "type" ); if( c ) pts(*c,e,"open"); }
}
