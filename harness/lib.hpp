// shared helpers of the harnesses (both sides)
#pragma once
#include "hx.hpp"
using namespace symx;
using namespace h2d;
#ifdef THOROUGH
#define TH(q,t) (t)
#else
#define TH(q,t) (q)
#endif
template<class F> bool throws( F f )
{
	try { f(); } catch( const std::exception& ) { return true; }
	return false;
}
inline Num sq( const Num& a ) { return a*a; }
inline Num d2( const Point2d& a, const Point2d& b ) { return sq(a.getX()-b.getX())+sq(a.getY()-b.getY()); }
inline Fm nearpt( const Point2d& p, const Num& x, const Num& y, double tol=1e-6 )
{ return And( near(p.getX(),x,tol), near(p.getY(),y,tol) ); }
inline Fm nearpt( const Point2d& p, const Point2d& q, double tol=1e-6 )
{ return nearpt( p, q.getX(), q.getY(), tol ); }
inline Fm absle( const Num& a, double b ) { return And( le(a,b), ge(a,-b) ); }
inline Fm absge( const Num& a, double b ) { return Or( ge(a,b), le(a,-b) ); }
// |a| >= b away from zero
inline void away( const Num& a, double b ) { assume( absge(a,b) ); }
inline Num cross( const Point2d& a, const Point2d& b, const Point2d& c )
{ return (b.getX()-a.getX())*(c.getY()-a.getY())-(b.getY()-a.getY())*(c.getX()-a.getX()); }
inline void obs( const std::string& n, const Point2d& p ) { observe(n+"x",p.getX()); observe(n+"y",p.getY()); }
// concrete line directions (dx,dy): axis aligned, rational unit vectors of every quadrant, generic
struct Dir { double x,y; };
inline Dir dirOf( int i )
{
	static const Dir t[]={ {1,0},{0,1},{0.6,0.8},{-0.8,0.6},{0.28,-0.96},{2,1},{1,-3} };
	return t[i];
}
inline Num evalLine( const Line2d& l, const Num& x, const Num& y ) { auto v=l.get(); return v[0]*x+v[1]*y+v[2]; }
inline Num evalLine( const Line2d& l, const Point2d& p ) { return evalLine(l,p.getX(),p.getY()); }
// neither of the values has the size of a threshold: null or clearly not
inline void clearly( const Num& a, double b=1e-6 ) { assume( Or( absge(a,b), eq(a,0) ) ); }
// v is the set e (expected points at least 1e-3 apart), sorted in lexicographic order
inline void samepts( const std::vector<Point2d>& v, const std::vector<Point2d>& e, const std::string& w, double tol=1e-5 )
{
	check( v.size()==e.size(), w+"-count" );
	if( v.size()!=e.size() ) return;
	std::vector<Fm> f;
	for( auto& q:e ) { std::vector<Fm> g; for( auto& p:v ) g.push_back( nearpt(p,q,tol) ); f.push_back( any(g) ); }
	for( unsigned i=1;i<v.size();i++ ) f.push_back( Or( lt(v[i-1].getX(),v[i].getX()), And( eq(v[i-1].getX(),v[i].getX()), le(v[i-1].getY(),v[i].getY()) ) ) );
	check( all(f), w+"-points" );
}
