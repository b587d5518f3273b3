#include "geom.hpp"
#include "hlib.hpp"
// the values a primitive is made of
typedef std::vector<Num> Vals;
template<class P> static void addp( Vals& v, const P& p ) { v.push_back(p.getX()); v.push_back(p.getY()); }
static Vals vals( const Point2d& a ) { Vals v; addp(v,a); return v; }
static Vals vals( const Line2d& a ) { auto c=a.get(); return { c[0],c[1],c[2] }; }
static Vals vals( const Segment& a ) { Vals v; auto p=a.getPts(); addp(v,p.first); addp(v,p.second); return v; }
static Vals vals( const OSegment& a ) { Vals v; auto p=a.getPts(); addp(v,p.first); addp(v,p.second); return v; }
static Vals vals( const Circle& a ) { Vals v; addp(v,a.center()); v.push_back(a.radius()); return v; }
static Vals vals( const FRect& a ) { Vals v; auto p=a.getPts(); addp(v,p.first); addp(v,p.second); return v; }
static Vals vals( const CPolyline& a ) { Vals v; for( auto& p:a.getPts() ) addp(v,p); return v; }
static Vals vals( const OPolyline& a ) { Vals v; for( auto& p:a.getPts() ) addp(v,p); return v; }
static Vals vals( const Ellipse& a ) { Vals v; addp(v,a.getCenter()); auto m=a.getMajMin(); v.push_back(m.first); v.push_back(m.second); auto l=a.getAxisLines(); for( auto& x:vals(l.first) ) v.push_back(x); for( auto& x:vals(l.second) ) v.push_back(x); return v; }
static Fm same( const Vals& a, const Vals& b ) { if( a.size()!=b.size() ) return Fm(eq(Num(0),Num(1))); std::vector<Fm> f; for( size_t i=0;i<a.size();i++ ) f.push_back( near(a[i],b[i],1e-6) ); return all(f); }
static const Type TY[]={ Type::Point2d, Type::Line2d, Type::Segment, Type::OSegment, Type::Circle, Type::FRect, Type::CPolyline, Type::OPolyline, Type::Ellipse };
static const size_t SZ[]={ 1,0,2,2,1,4,3,4,1 };
// the k-th primitive with symbolic position is given to F with its length and area
template<class F> static void each( int k, F f )
{
	Num x=in("x",-9,9), y=in("y",-9,9);
	if( k==0 ) f( Point2d(x,y), Num(0), Num(0) );
	else if( k==1 ) f( Line2d(Point2d(x,y),Point2d(x+3,y-4)), Num(-1), Num(0) );
	else if( k==2 ) f( Segment(x,y,x-3,y+4), Num(5), Num(0) );
	else if( k==3 ) f( OSegment(x,y,x-5,y+12), Num(13), Num(0) );
	else if( k==4 ) { Num r=in("r",0.5,9); f( Circle(x,y,r), 2*M_PI*r, M_PI*r*r ); }
	else if( k==5 ) { Num w=in("w",0.5,9); f( FRect(x,y,x+w,y+2), 2*w+4, 2*w ); }
	else if( k==6 ) f( CPolyline( Pts{ {x,y},{x+3,y},{x,y+4} } ), Num(12), Num(6) );
	else if( k==7 ) f( OPolyline( Pts{ {x,y},{x+3,y},{x+3,y+4},{x+4,y+4} } ), Num(8), Num(0) );
	else f( Ellipse(x,y,Num(4),Num(2),Num(0)), Num(-2), Num(M_PI*8) );
}
template<class V> static void basics( const V& v, int k, Num l, Num a, const std::string& w )
{
	check( type(v)==TY[k], w+"-type" ); check( near(size(v),Num(SZ[k]),1e-9), w+"-size" ); check( near(area(v),a,1e-6), w+"-area" );
	if( k==1 ) check( throws( [&]{ length(v); } ), w+"-length-of-line" ); else if( k!=8 ) check( near(length(v),l,1e-6), w+"-length" );
}
CASE(variant_basics)
{
	int k=choose("k",9); each( k, [&]( const auto& a, Num l, Num ar ) {
		basics( a, k, l, ar, "direct" ); CommonType c=a; basics( c, k, l, ar, "variant" );
		CommonType d=c; basics( d, k, l, ar, "copied" ); d=CommonType( Point2d(3,4) ); check( type(d)==Type::Point2d && type(c)==TY[k], "value-semantics" ); d=c;
		using X=std::decay_t<decltype(a)>; X b=fct::VariantUnwrapper{d}; check( same(vals(a),vals(b)), "unwrap" ); check( dtype(d)==a.dtype() && dtype(a)==a.dtype(), "dtype" );
		check( std::visit(fct::TypeFunct{},d)==TY[k], "type-functor" ); if( k!=1 && k!=8 ) check( near(std::visit(fct::LengthFunct{},d),l,1e-6), "length-functor" ); check( And( near(std::visit(fct::AreaFunct{},d),ar,1e-6), near(std::visit(fct::SizeFunct{},d),Num(SZ[k]),1e-9) ), "area-size-functors" );
		if( k==8 ) check( near(length(d),a.length(),1e-6), "ellipse-length" ); } );
}
CASE(wrong_unwrap)
{
	int k=choose("k",9), j=choose("j",9); assume( j!=k ); each( k, [&]( const auto& a, Num, Num ) { CommonType c=a; auto bad=[&]( auto z ) { using X=decltype(z); check( throws( [&]{ X b=fct::VariantUnwrapper{c}; (void)b; } ), "unwrap-other-type" ); };
		if( j==0 ) bad(Point2d()); else if( j==1 ) bad(Line2d()); else if( j==2 ) bad(Segment()); else if( j==3 ) bad(OSegment()); else if( j==4 ) bad(Circle()); else if( j==5 ) bad(FRect()); else if( j==6 ) bad(CPolyline()); else if( j==7 ) bad(OPolyline()); else bad(Ellipse()); } );
}
CASE(root_pointer)
{
	int k=choose("k",9); each( k, [&]( const auto& a, Num l, Num ar ) {
		using X=std::decay_t<decltype(a)>; std::shared_ptr<rtp::Root> p=std::make_shared<X>(a); check( p->type()==TY[k] && p->size()==SZ[k], "type-size" ); check( near(p->area(),ar,1e-6), "area" );
		if( k==1 ) check( throws( [&]{ p->length(); } ), "length-of-line" ); else if( k==8 ) check( near(p->length(),a.length(),1e-6), "length" ); else check( near(p->length(),l,1e-6), "length" );
		auto b=std::dynamic_pointer_cast<X>(p); check( b!=nullptr, "cast" ); if( b ) check( same(vals(a),vals(*b)), "same" ); } );
}
static std::string str( const img::Image<img::SvgImage>& im ) { std::ostringstream o; o<<im; return o.str(); }
CASE(drawing)
{
	int k=choose("k",9), m=choose("how",4); each( k, [&]( const auto& a, Num, Num ) {
		using X=std::decay_t<decltype(a)>; if( k==1 ) { Num x=vals(a)[0]; (void)x; } img::DrawParams dp; dp.setColor(10,20,30).setThickness(4); auto no=[]( bool ) {}; (void)no;
		img::Image<img::SvgImage> i1(300,300), i2(300,300); if( m&1 ) a.draw(i1,dp); else a.draw(i1);
		if( m<2 ) { CommonType c=a; if( m&1 ) { fct::DrawFunct f(i2,dp); std::visit(f,c); } else { fct::DrawFunct f(i2); std::visit(f,c); } }
		else { std::unique_ptr<rtp::Root> p( new X(a) ); if( m&1 ) p->draw(i2,dp); else p->draw(i2); }
		check( str(i1)==str(i2), "same-document" ); } );
}
static Homogr hom( int i )
{
	Num t=in("t",-5,5); Homogr h; if( i==0 ) h.addTranslation(t,Num(2)); else if( i==1 ) h.addRotation(Num(M_PI/2)).addTranslation(t,Num(1)); else h.addScale(Num(2),Num(2)).addTranslation(Num(1),t); return h;
}
CASE(transform)
{
	int k=choose("k",9), i=choose("h",3); Homogr h=hom(i); each( k, [&]( const auto& a, Num, Num ) {
		auto b=h*a; CommonType r; int w=choose("how",3); if( w==0 ) r=transform(h,CommonType(a)); else if( w==1 ) r=transform(h,a); else { fct::TransformFunct f(h); CommonType c=a; r=std::visit(f,c); }
		using Y=std::decay_t<decltype(b)>; auto q=std::get_if<Y>(&r); check( q!=nullptr, "type" ); if( q ) check( same(vals(*q),vals(b)), "values" ); } );
}
CASE(transform_in_place)
{
	Num x=in("x",-9,9), y=in("y",-9,9), t=in("t",-5,5); Homogr h; h.addScale(Num(3)).addTranslation(t,Num(1)); std::vector<CommonType> v; v.emplace_back( Point2d(x,y) ); v.emplace_back( Segment(x,y,x+1,y+1) ); v.emplace_back( CPolyline( Pts{ {x,y},{x+3,y},{x,y+4} } ) );
	for( auto& e:v ) e=transform(h,e); for( auto& e:v ) e=transform(h,e); Num X=9*x+4*t, Y=9*y+4; Point2d p=fct::VariantUnwrapper{v[0]}; Segment s=fct::VariantUnwrapper{v[1]}; CPolyline c=fct::VariantUnwrapper{v[2]};
	check( nearpt(p,X,Y), "point" ); check( same(vals(s),{X,Y,X+9,Y+9}), "segment" ); check( same(vals(c),{X,Y,X+27,Y,X,Y+36}), "polyline" );
}
// bounding box of sets
static CommonType item( int k, Num x, Num y )
{
	if( k==0 ) return Point2d(x,y); if( k==1 ) return Line2d( Point2d(0,0),Point2d(50,40) ); if( k==2 ) return Segment(x,y,x+2,y-1); if( k==3 ) return OSegment(x,y,x-2,y-1); if( k==4 ) return Circle(x,y,Num(2)); if( k==5 ) return FRect(x,y,x+2,y+3);
	if( k==6 ) return CPolyline( Pts{ {x,y},{x+3,y},{x,y+4} } ); if( k==7 ) return OPolyline( Pts{ {x,y},{x+3,y},{x+3,y+4},{x-1,y+5} } ); if( k==8 ) return Ellipse(x,y,Num(3),Num(2),Num(0)); if( k==9 ) return CPolyline(); return OPolyline();
}
static const double BX[][4]={ {0,0,0,0},{},{0,-1,2,0},{-2,-1,0,0},{-2,-2,2,2},{0,0,2,3},{0,0,3,4},{-1,0,3,5},{-3,-2,3,2} };
static bool boxed( int k ) { return k!=1 && k<9; }
CASE(bounding_box)
{
	int a=choose("a",11), b=choose("b",TH(5,11)); if( !TH(0,1) ) b= b==0?0 : b==1?1 : b==2?4 : b==3?6 : 10; Num x=in("x",-20,20), y=in("y",-20,20); std::vector<CommonType> v{ item(a,x,y), item(b,Num(1),Num(3)), item(5,Num(30),Num(-7)) }; int r=choose("rot",3); std::rotate( v.begin(), v.begin()+r, v.end() );
	Num x0=30, y0=-7, x1=32, y1=-4; auto add=[&]( int k, Num u, Num w ) { if( !boxed(k) ) return; Num a0=u+BX[k][0], b0=w+BX[k][1], a1=u+BX[k][2], b1=w+BX[k][3]; if( branch(lt(a0,x0)) ) x0=a0; if( branch(lt(b0,y0)) ) y0=b0; if( branch(gt(a1,x1)) ) x1=a1; if( branch(gt(b1,y1)) ) y1=b1; };
	add(a,x,y); add(b,Num(1),Num(3)); FRect bb=getBB(v); check( same(vals(bb),{x0,y0,x1,y1}), "box" );
}
CASE(bounding_box_none) { std::vector<CommonType> v; check( throws( [&]{ getBB(v); } ), "empty" ); Num x=in("x",-9,9), y=in("y",-9,9); v.push_back( Line2d( Point2d(x,y),Point2d(x+1,y) ) ); check( throws( [&]{ getBB(v); } ), "only-a-line" ); v.push_back( Point2d(x,y) ); check( throws( [&]{ getBB(v); } ), "one-point" ); v.push_back( Point2d(x+1,y) ); check( throws( [&]{ getBB(v); } ), "flat" ); }
// containment through the variant
CASE(mixed_container)
{
	Num x=in("x",-9,9), y=in("y",-9,9), r=in("r",0.5,5); std::vector<CommonType> v; v.emplace_back( Circle(x,y,r) ); v.emplace_back( FRect(x,y,x+r,y+1) ); v.emplace_back( Segment(x,y,x+r,y) ); Num l=0, a=0; for( auto& e:v ) { l+=length(e); a+=area(e); }
	check( near(l,2*M_PI*r+2*r+2+r,1e-6), "sum-of-lengths" ); check( near(a,M_PI*r*r+r,1e-6), "sum-of-areas" );
	std::vector<std::shared_ptr<rtp::Root>> q; q.push_back( std::make_shared<Circle>(x,y,r) ); q.push_back( std::make_shared<FRect>(x,y,x+r,y+1) ); q.push_back( std::make_shared<Segment>(x,y,x+r,y) ); Num l2=0, a2=0; for( auto& e:q ) { l2+=e->length(); a2+=e->area(); } check( And( near(l,l2,1e-6), near(a,a2,1e-6) ), "pointers" );
}
// elements without extent in one direction take part too
CASE(bounding_box_flat)
{
	int k=choose("k",4), r=choose("rot",3); Num x=in("x",-20,20), y=in("y",-20,20), d=in("d",0.1,9); bool vert=k%2; Num a=vert?x:x+d, b=vert?y+d:y; std::vector<CommonType> v; if( k<2 ) v.push_back( Segment(x,y,a,b) ); else v.push_back( OSegment(a,b,x,y) ); v.push_back( Circle(Point2d(0,0),Num(1)) ); v.push_back( Point2d(1.5,-3) ); std::rotate( v.begin(), v.begin()+r, v.end() );
	auto mn=[]( Num p, Num q ) { return branch(lt(p,q))? p:q; }; auto mx=[]( Num p, Num q ) { return branch(lt(p,q))? q:p; }; FRect bb=getBB(v); check( same(vals(bb),{ mn(x,Num(-1)), mn(y,Num(-3)), mx(a,Num(1.5)), mx(b,Num(1)) }), "box" );
}
