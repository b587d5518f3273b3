// text written by the stream operators: every number of the object, in the documented order
#include "geom.hpp"
#include "hlib.hpp"
#ifdef SYMX
static Num num( const std::string& s ) { return h2d_stod(s); }
#else
static Num num( const std::string& s ) { return std::stod(s); }
#endif
// all the numbers of a text, in order (digits inside words, such as "pt1" or "Point2d", are not numbers)
static std::vector<Num> nums( const std::string& s )
{
	std::vector<Num> v; size_t i=0;
	while( i<s.size() )
	{
		bool w= i>0 && ( std::isalnum((unsigned char)s[i-1]) || s[i-1]=='_' );
		size_t j=i; if( s[j]=='-' && j+1<s.size() && ( std::isdigit((unsigned char)s[j+1]) || s[j+1]=='.' ) ) j++;
		if( !w && ( std::isdigit((unsigned char)s[j]) || s[j]=='.' ) )
		{
			size_t k=j; while( k<s.size() && ( std::isdigit((unsigned char)s[k]) || s[k]=='.' || ( (s[k]=='e'||s[k]=='E') && k+1<s.size() && ( s[k+1]=='-' || s[k+1]=='+' || std::isdigit((unsigned char)s[k+1]) ) ) || ( (s[k]=='-'||s[k]=='+') && (s[k-1]=='e'||s[k-1]=='E') ) ) ) k++;
			if( k==s.size() || !std::isalpha((unsigned char)s[k]) ) { v.push_back( num(s.substr(i,k-i)) ); i=k; continue; }
			i=k; continue;
		}
		i++;
	}
	return v;
}
static const double TOL=4e-4;
template<class X> std::string text( const X& x ) { std::ostringstream o; o<<x; return o.str(); }
static void same( const std::string& s, const std::vector<Num>& e, const std::string& w )
{
	auto v=nums(s); check( v.size()==e.size(), w+"-count" ); if( v.size()!=e.size() ) return;
	std::vector<Fm> f; for( size_t i=0;i<e.size();i++ ) f.push_back( near(v[i],e[i],TOL) ); check( all(f), w+"-values" );
}
static bool has( const std::string& s, const char* t ) { return s.find(t)!=std::string::npos; }
static Num rv( const char* n ) { return in(n,-9,9); }
CASE(point) { Num x=rv("x"), y=rv("y"); away(x*x+y*y,0.1); int k=choose("k",4); static const double W[]={1,2,-0.5,0}; Point2d p(x,y,Num(W[k])); if( k==3 ) { auto v=nums(text(p)); check( v.size()==3, "infinite-count" ); if( v.size()!=3 ) return; check( all({ near(v[2],0,TOL), near(v[0]*y-v[1]*x,0,4e-3), gt( v[0]*v[0]+v[1]*v[1], 1e-3 ) }), "infinite" ); } else same( text(p), {x/W[k],y/W[k]}, "point" ); }
CASE(line) { Num a=rv("a"), b=rv("b"); int d=choose("d",7); Dir u=dirOf(d); Line2d l( Point2d(a,b), Point2d(a+u.x,b+u.y) ); auto v=nums(text(l)); check( v.size()==3, "count" ); if( v.size()!=3 ) return; check( And( near(v[0]*a+v[1]*b+v[2],0,4e-3), near(v[0]*u.x+v[1]*u.y,0,4e-3) ), "through" ); check( near(v[0]*v[0]+v[1]*v[1],1,4e-3), "normalised" ); }
CASE(segment) { Num x=rv("x"), y=in("y",2.1,9); int o=choose("o",2); Point2d a(x,y), b(1,2); if( o ) { OSegment s(a,b); same( text(s), {x,y,1,2}, "osegment" ); check( has(text(s),"=>"), "arrow" ); OSegment r=-s; same( text(r), {1,2,x,y}, "reversed" ); } else { Segment s(a,b); bool f=x<Num(1); away(x-1,1e-3); if( f ) same( text(s), {x,y,1,2}, "segment" ); else same( text(s), {1,2,x,y}, "segment" ); check( !has(text(s),"=>"), "no-arrow" ); } }
CASE(circle) { Num x=rv("x"), y=rv("y"), r=in("r",0.1,9); Circle c(x,y,r); same( text(c), {x,y,r}, "circle" ); }
CASE(frect) { Num x=rv("x"), y=rv("y"); away(x-1,1e-2); away(y-2,1e-2); FRect r( Point2d(x,y), Point2d(1,2) ); bool a=x<Num(1), b=y<Num(2); same( text(r), { a?x:Num(1), b?y:Num(2), a?Num(1):x, b?Num(2):y }, "frect" ); }
CASE(polyline)
{
	Num x=rv("x"), y=rv("y"); int k=choose("k",3); away( (x-1)*(x-1)+(y-2)*(y-2), 1e-2 ); away( (x-7)*(x-7)+(y-2)*(y-2), 1e-2 ); away( (x-7)*(x-7)+(y-8)*(y-8), 1e-2 );
	Pts v{ Point2d(1,2), Point2d(7,2), Point2d(7,8), Point2d(x,y) }; std::vector<Num> e{1,2,7,2,7,8,x,y};
	if( k==0 ) { CPolyline p(v); same( text(p), e, "closed" ); check( text(p)[0]=='C', "closed-kind" ); check( !has(text(p),"empty"), "not-empty" ); }
	else if( k==1 ) { OPolyline p(v); same( text(p), e, "open" ); check( text(p)[0]=='O', "open-kind" ); check( !has(text(p),"empty"), "not-empty" ); }
	else { CPolyline p; OPolyline q; check( has(text(p),"empty") && has(text(q),"empty") && text(p)[0]=='C' && text(q)[0]=='O', "empty" ); same( text(p), {}, "empty" ); }
}
CASE(ellipse) { Num x=rv("x"), y=rv("y"), a=in("a",3,9); int k=choose("k",3); static const double A[]={0,30,-50}; Ellipse e(x,y,a,Num(2),Num(A[k]*M_PI/180)); auto s=text(e); auto v=nums(s); check( v.size()==5, "count" ); if( v.size()!=5 ) return; check( all({ near(v[0],x,TOL), near(v[1],y,TOL), near(v[3],a,4e-3), near(v[4],2,4e-3) }), "values" ); if( k ) check( near(v[2],A[k],1e-2), "angle" ); }
CASE(homography) { Num x=in("x",0.1,9), y=rv("y"); int i=choose("i",8); Homogr h; h.set(i/3,i%3,x); h.set((i+1)%8/3,(i+1)%8%3,y); std::vector<Num> e{1,0,0,0,1,0,0,0,1}; e[i]=x; e[(i+1)%8]=y; same( text(h), e, "homography" ); auto s=text(h); check( std::count(s.begin(),s.end(),'\n')>=3, "rows" ); }
CASE(inters_one) { Num x=rv("x"); Segment a(-9,0,9,0), b(x,-1,x,3); away(x-9,1e-3); away(x+9,1e-3); auto i=a.intersects(b); std::ostringstream o; o<<i.get(); same( o.str(), {x,0}, "one" ); }
CASE(inters_two) { Num y=in("y",-0.9,0.9); Circle c(Num(0),Num(0),Num(1)); Line2d l( Point2d(-5,y), Point2d(5,y) ); auto i=l.intersects(c); check( i(), "crosses" ); if( !i() ) return; auto g=i.get(); auto s=text(i); auto v=nums(s.substr(s.find("p1:"))); check( has(s,"bool=1"), "flag" ); check( v.size()==4, "count" ); if( v.size()!=4 ) return; check( all({ near(v[0],g.first.getX(),TOL), near(v[1],y,TOL), near(v[2],g.second.getX(),TOL), near(v[3],y,TOL), near(v[0]*v[0]+y*y,1,4e-3) }), "values" ); }
CASE(inters_many) { Num x=in("x",0.1,9.9); CPolyline p( Pts{ Point2d(0,0), Point2d(10,0), Point2d(10,6), Point2d(0,6) } ); Segment s(x,-2,x,9); auto i=s.intersects(p); check( i.size()==2, "two" ); if( i.size()!=2 ) return; auto t=text(i); auto at=t.find('\n'); check( has(t,"size=2"), "size" ); if( at==std::string::npos ) return; auto v=nums(t.substr(at)); check( v.size()>=4, "written" ); if( v.size()<4 ) return; v.erase( v.begin(), v.end()-4 ); check( all({ near(v[0],x,TOL), near(v[2],x,TOL), near(v[1]+v[3],6,TOL), near(v[1]*v[3],0,TOL) }), "values" ); }
CASE(containers) { Num x=rv("x"), y=rv("y"); int k=choose("k",5); Pts v{ Point2d(x,y), Point2d(3,4) }; if( k==0 ) same( text(v), {2,x,y,3,4}, "vector" ); else if( k==1 ) same( text(std::array<Point2d,2>{ v[0], v[1] }), {2,x,y,3,4}, "array" ); else if( k==2 ) same( text(std::vector<Circle>{ Circle(x,y,Num(2)), Circle(Num(5),Num(6),Num(7)) }), {2,x,y,2,5,6,7}, "circles" ); else if( k==3 ) same( text(Pts()), {0}, "none" ); else same( text(std::make_pair(Point2d(x,y),Point2d(3,4))), {x,y,3,4}, "pair" ); }
CASE(pair_mixed) { Num x=rv("x"), y=rv("y"); auto s=text(std::make_pair(Point2d(x,y),Line2d(Num(3),Num(4),Num(5)))); auto a=s.find("first="), b=s.find("second="); check( a!=std::string::npos && b!=std::string::npos && a<b, "order" ); if( a==std::string::npos||b==std::string::npos ) return; same( s.substr(a,b-a), {x,y}, "first" ); same( s.substr(b), {0.6,0.8,1}, "second" ); check( has(s,"Point") && has(s,"Line"), "types" ); }
CASE(thresholds)
{
	int k=choose("k",5); Num t=in("t",0.001,2); Num* r[]={ &thr::nullDistance(), &thr::nullOrthogDistance(), &thr::nullAngleValue(), &thr::nullDenom(), &thr::nullDeter() }; static const char* N[]={"nullDistance()","nullOrthogDistance()","nullAngleValue()","nullDenom()","nullDeter()"};
	Num o=*r[k]; *r[k]=t; std::ostringstream s; thr::printThresholds(s); *r[k]=o; size_t at=0;
	for( auto n:N ) { auto i=s.str().find(n); check( i!=std::string::npos && i>=at, "names" ); if( i!=std::string::npos ) at=i; }
	auto i=s.str().find(N[k]); if( i==std::string::npos ) return; auto v=nums( s.str().substr( s.str().find('=',i) ) ); check( v.size()==(size_t)(5-k), "count" ); if( v.size()!=(size_t)(5-k) ) return; check( near(v[0],t,TOL), "value" );
}
CASE(types)
{
	static const std::pair<Type,const char*> N[]={ {Type::Line2d,"Line2d"}, {Type::Point2d,"Point2d"}, {Type::Segment,"Segment"}, {Type::OSegment,"OSegment"}, {Type::FRect,"FRect"}, {Type::Circle,"Circle"}, {Type::Ellipse,"Ellipse"}, {Type::OPolyline,"OPolyline"}, {Type::CPolyline,"CPolyline"} };
	Num x=rv("x"), y=in("y",5,9); Point2d p(x,y), q(1,2); (void)x; bool ok=true; for( auto& n:N ) ok=ok && std::string(getString(n.first))==n.second; check( ok, "names" );
	check( p.type()==Type::Point2d && Line2d(p,q).type()==Type::Line2d && Segment(p,q).type()==Type::Segment && OSegment(p,q).type()==Type::OSegment && Circle(q,y).type()==Type::Circle && Ellipse(x,y).type()==Type::Ellipse && OPolyline(Pts{p,q}).type()==Type::OPolyline && CPolyline(Pts{p,q,Point2d(20,20)}).type()==Type::CPolyline && FRect(Point2d(20,30),p).type()==Type::FRect, "of-object" );
}
