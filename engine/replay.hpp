// Concrete twin of sym.hpp: the same harness source, Num = double, the unmodified header.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <unistd.h>
#include <vector>

#ifndef REPLAY_T
#define REPLAY_T double
#endif
namespace symx {
using Num = REPLAY_T;
using NumL = long double;
struct FmV { bool v; };
using Fm = FmV;
struct PathEnd { std::string why; };
struct Unsupported { std::string msg; };
constexpr bool symbolic = false;
inline std::map<std::string,double>& vals() { static std::map<std::string,double> m; return m; }
inline int& failures() { static int n=0; return n; }
inline Num in( const std::string& n, double lo, double hi )
{
	auto it=vals().find(n);
	double d= it==vals().end()? 0.5*(lo+hi) : it->second;
	if( d<lo ) d=lo;
	if( d>hi ) d=hi;
	return d;
}
inline int choose( const std::string& n, int k )
{
	auto it=vals().find(n); int r= it==vals().end()? 0 : (int)it->second;
	return r<0?0: r>=k? k-1 : r;
}
inline Fm T( bool b ) { return Fm{b}; }
inline Fm lt( Num a, Num b ) { return Fm{a<b}; }
inline Fm le( Num a, Num b ) { return Fm{a<=b}; }
inline Fm eq( Num a, Num b ) { return Fm{a==b}; }
inline Fm gt( Num a, Num b ) { return Fm{a>b}; }
inline Fm ge( Num a, Num b ) { return Fm{a>=b}; }
inline Fm near( Num a, Num b, double tol=1e-6 ) { return Fm{ a==b || std::fabs(a-b)<=tol*1.0000001 }; }
inline Fm And( Fm a, Fm b ) { return Fm{a.v&&b.v}; }
inline Fm Or( Fm a, Fm b ) { return Fm{a.v||b.v}; }
inline Fm Not( Fm a ) { return Fm{!a.v}; }
inline Fm Imp( Fm a, Fm b ) { return Fm{!a.v||b.v}; }
inline Fm Iff( Fm a, Fm b ) { return Fm{a.v==b.v}; }
inline Fm And( Fm a, Fm b, Fm c ) { return And(And(a,b),c); }
inline Fm And( Fm a, Fm b, Fm c, Fm d ) { return And(And(a,b),And(c,d)); }
inline Fm Or( Fm a, Fm b, Fm c ) { return Or(Or(a,b),c); }
inline Fm Or( Fm a, Fm b, Fm c, Fm d ) { return Or(Or(a,b),Or(c,d)); }
inline Fm all( const std::vector<Fm>& v ) { bool r=true; for( auto e:v ) r=r&&e.v; return Fm{r}; }
inline Fm any( const std::vector<Fm>& v ) { bool r=false; for( auto e:v ) r=r||e.v; return Fm{r}; }
inline void assume( Fm f ) { if( !f.v ) throw PathEnd{"assume"}; }
inline void assume( bool f ) { if( !f ) throw PathEnd{"assume"}; }
inline void check( Fm f, const std::string& label ) { if( !f.v ) { printf("REPLAY-FAIL %s\n",label.c_str()); fflush(stdout); failures()++; } }
inline void check( bool b, const std::string& label ) { check(Fm{b},label); }
inline void fail( const std::string& label ) { check(Fm{false},label); }
inline void observe( const std::string& n, Num v ) { printf("OBS %s=%.12g\n",n.c_str(),(double)v); }
inline bool branch( Fm f ) { return f.v; }
inline void skip( const std::string& w ) { throw PathEnd{w}; }
inline std::string tok( Num a ) { char b[64]; snprintf(b,sizeof b,"%.17g",(double)a); return b; }
inline std::vector<std::pair<std::string,void(*)()>>& cases() { static std::vector<std::pair<std::string,void(*)()>> v; return v; }
struct CaseReg { CaseReg( const char* n, void(*f)() ) { cases().push_back({n,f}); } };
inline bool& finished() { static bool b=false; return b; }
} // namespace symx
#define CASE(n) static void case_##n(); static symx::CaseReg reg_##n( #n, case_##n ); static void case_##n()

#ifndef REPLAY_NOMAIN
// replay CASE FILE : exit 0 property holds on this input, 1 a check failed, 3 input outside the assumptions
int main( int argc, char** argv )
{
	using namespace symx;
	if( argc<3 ) return 2;
	std::ifstream f(argv[2]); std::string t;
	while( f>>t ) { auto p=t.find('='); if( p!=std::string::npos ) vals()[t.substr(0,p)]=strtod(t.c_str()+p+1,nullptr); }
	atexit([]{ if( !finished() ) { printf("REPLAY-FAIL no-exit\n"); fflush(stdout); _exit(1); } });
	for( auto& c:cases() ) if( c.first==argv[1] )
	{
		int rc=0;
		try { c.second(); rc= failures()?1:0; }
		catch( PathEnd& e ) { printf("END %s\n",e.why.c_str()); rc= failures()?1:3; }
		catch( std::exception& e ) { printf("REPLAY-FAIL no-unexpected-exception: %s\n",e.what()); rc=1; }
		catch( ... ) { printf("REPLAY-FAIL no-unexpected-exception\n"); rc=1; }
		finished()=true; fflush(stdout); _exit(rc);
	}
	finished()=true; return 2;
}
#endif
