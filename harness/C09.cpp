#include "hlib.hpp"
static const double SRC[5][8]={
	{0,0, 1,0, 1,1, 0,1}, {20,20, 250,20, 230,170, 60,190}, {-3,1, 4,2, 2,-3, -2,-4}, {0,0, 3,1, 1,4, 1,1.5}, {3,5, -2,1, 0,0, 4,-1} };
// families holding the origin: no transformation built from them sends the origin to infinity
static const int WO[3]={0,3,4}; static const int IO[3]={0,0,2};
static void fam( int a, std::vector<Point2d>& v ) { v.clear(); for(int i=0;i<4;i++) v.emplace_back( SRC[a][2*i], SRC[a][2*i+1] ); }
static Homogr build( const std::vector<Point2d>& s, const std::vector<Point2d>& d, int w )
{
	if( w ) return buildFrom4Points( s, d, 0 );
	Homogr H; H.setTranslation(3,4); H.buildFrom4Points( s, d, 0 ); return H;
}
static void general( const std::vector<Point2d>& v, double m )
{
	away( cross(v[0],v[1],v[2]), m ); away( cross(v[0],v[1],v[3]), m ); away( cross(v[0],v[2],v[3]), m ); away( cross(v[1],v[2],v[3]), m );
}
static void verify( const Homogr& H, const std::vector<Point2d>& s, const std::vector<Point2d>& d )
{
	for(int i=0;i<4;i++) { M3 m=raw(H); auto h=img3(m,s[i].getX(),s[i].getY()); check( And( near( h[0], d[i].getX()*h[2], 1e-3 ), near( h[1], d[i].getY()*h[2], 1e-3 ) ), "maps-point-"+std::to_string(i) ); }
	check( near( raw(H)[2][2], 1 ), "normalised" );
}
CASE(dest_symbolic)
{
	int a=WO[choose("a",3)], b=choose("b",5), i=choose("i",4), w=choose("w",2); Num x=in("x",-10,10), y=in("y",-10,10);
	if( w && b!=2 ) skip("same as w=0");
	std::vector<Point2d> s,d; fam(a,s); fam(b,d); d[i]=Point2d(x,y);
	general(d,0.5);
	// the origin must not be sent to infinity (the result has a unit last value)
	Homogr H=build(s,d,w);
	verify(H,s,d);
}
CASE(src_symbolic)
{
	int a=choose("a",3), b=choose("b",5), i=choose("i",4), j=choose("j",3); Num x=in("x",-10,10);
	static const double ys[3]={-4.5,0,6};
	if( i==IO[a] ) skip("keep the origin");
	std::vector<Point2d> s,d; fam(WO[a],s); fam(b,d); s[i]=Point2d(x,ys[j]);
	general(s,0.5);
	Homogr H=build(s,d,1);
	verify(H,s,d);
}
CASE(known_homography)
{
	// the images by a known transformation give that transformation back
	int a=choose("a",5), k=choose("k",5), f=choose("f",2); Num t=in("t",-2,2);
	M3 m=baseMat(k); if( f ) m[0][2]=t; else m[1][1]=t+3;
	std::vector<Point2d> s,d; fam(a,s);
	for( auto& p:s ) { auto h=img3(m,p.getX(),p.getY()); away(h[2],0.1); d.emplace_back( h[0]/h[2], h[1]/h[2] ); }
	away(det3(m),0.1);
	Homogr H=build(s,d,f);
	check( sameScale( raw(H), m, 1e-3 ), "recovered" );
}
CASE(sizes)
{
	int n=choose("n",7), k=choose("k",7); Num x=in("x",0.5,2);
	if( n==4 && k==4 ) skip("valid");
	std::vector<Point2d> s,d; for(int i=0;i<n;i++) s.emplace_back(x*i,i*i); for(int i=0;i<k;i++) d.emplace_back(x*i,i*i);
	check( throws([&]{ Homogr H; H.buildFrom4Points(s,d,0); }), "rejected" );
	check( throws([&]{ buildFrom4Points(s,d,0); }), "rejected-free" );
}
