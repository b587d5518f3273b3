// Symbolic number type: the real homog2d templates are instantiated with it (see DESIGN.md).
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace symx {

struct Frac;            // N/D, polynomials over the symbolic variables
struct FmNode;
using Fm = std::shared_ptr<const FmNode>;

struct Unsupported { std::string msg; };      // not a std::exception: the library must not swallow it
struct PathEnd { std::string why; };

class Num;
template<class T> struct is_plain : std::integral_constant<bool,
	std::is_same<T,float>::value || std::is_same<T,double>::value || std::is_same<T,long double>::value
	|| std::is_integral<T>::value> {};

double truncated( const Num& );
double concretize( const Num&, const char* what );

class Num
{
public:
	double c = 0.;
	std::shared_ptr<const Frac> f;       // null: constant c
	Num() = default;
	template<class T, typename std::enable_if<is_plain<T>::value,int>::type=0>
	Num( T v ): c( static_cast<double>(v) ) {}
	explicit Num( std::shared_ptr<const Frac> p ): f(std::move(p)) {}
	bool isConst() const { return !f; }
	template<class T, typename std::enable_if<is_plain<T>::value,int>::type=0>
	explicit operator T() const { if( isConst() ) return static_cast<T>(c); if constexpr( std::is_integral<T>::value && !std::is_same<T,bool>::value ) return static_cast<T>( truncated(*this) ); else return static_cast<T>( concretize(*this,"conversion") ); }
	Num& operator+=( const Num& );
	Num& operator-=( const Num& );
	Num& operator*=( const Num& );
	Num& operator/=( const Num& );
	Num operator-() const;
	Num operator+() const { return *this; }
	Num& operator++() { *this += Num(1); return *this; }
	Num& operator--() { *this -= Num(1); return *this; }
	bool operator!() const;
};

// a second number type, distinct for the templates
class NumL: public Num
{
public:
	NumL() = default;
	NumL( const Num& a ): Num(a) {}
	template<class T, typename std::enable_if<is_plain<T>::value,int>::type=0> NumL( T v ): Num(v) {}
	NumL operator-() const { return Num::operator-(); }
	NumL operator+() const { return *this; }
};

Num nadd( const Num&, const Num& );
Num nsub( const Num&, const Num& );
Num nmul( const Num&, const Num& );
Num ndiv( const Num&, const Num& );
bool decideCmp( const Num&, const Num&, int rel ); // rel: 0 '<', 1 '<=', 2 '=='

inline Num operator+( const Num& a, const Num& b ) { return nadd(a,b); }
inline Num operator-( const Num& a, const Num& b ) { return nsub(a,b); }
inline Num operator*( const Num& a, const Num& b ) { return nmul(a,b); }
inline Num operator/( const Num& a, const Num& b ) { return ndiv(a,b); }
#define SYMX_ARI(op,fn) \
template<class T, typename std::enable_if<is_plain<T>::value,int>::type=0> Num operator op( const Num& a, T b ) { return fn(a,Num(b)); } \
template<class T, typename std::enable_if<is_plain<T>::value,int>::type=0> Num operator op( T a, const Num& b ) { return fn(Num(a),b); }
SYMX_ARI(+,nadd) SYMX_ARI(-,nsub) SYMX_ARI(*,nmul) SYMX_ARI(/,ndiv)
#undef SYMX_ARI
#define SYMX_CMP(op,expr) \
inline bool operator op( const Num& a, const Num& b ) { return expr; } \
template<class T, typename std::enable_if<is_plain<T>::value,int>::type=0> bool operator op( const Num& a, T bb ) { Num b(bb); return expr; } \
template<class T, typename std::enable_if<is_plain<T>::value,int>::type=0> bool operator op( T aa, const Num& b ) { Num a(aa); return expr; }
bool isNaN( const Num& );
SYMX_CMP(<, decideCmp(a,b,0))
SYMX_CMP(<=,decideCmp(a,b,1))
SYMX_CMP(>, decideCmp(b,a,0))
SYMX_CMP(>=,decideCmp(b,a,1))
SYMX_CMP(==,decideCmp(a,b,2))
SYMX_CMP(!=,!decideCmp(a,b,2))
#undef SYMX_CMP
inline Num& Num::operator+=( const Num& o ) { *this = nadd(*this,o); return *this; }
inline Num& Num::operator-=( const Num& o ) { *this = nsub(*this,o); return *this; }
inline Num& Num::operator*=( const Num& o ) { *this = nmul(*this,o); return *this; }
inline Num& Num::operator/=( const Num& o ) { *this = ndiv(*this,o); return *this; }
inline Num Num::operator-() const { return isConst() ? Num(-c) : nmul(Num(-1),*this); }
inline bool Num::operator!() const { return decideCmp(*this,Num(0),2); }

Num nsqrt( const Num& );
Num nhypot( const Num&, const Num& );
Num nabs( const Num& );
Num nsin( const Num& );
Num ncos( const Num& );
Num nacos( const Num& );
Num nasin( const Num& );
Num natan( const Num& );
Num natan2( const Num&, const Num& );
bool nsignbit( const Num& );

std::ostream& operator<<( std::ostream&, const Num& );
std::istream& operator>>( std::istream&, Num& );

// "std::stod" in the library text is redirected here: tokens produced by tok() give back their number
Num h2d_stod( const std::string& );
std::string tok( const Num& );

// ---------------------------------------------------------------- harness side
Num in( const std::string& name, double lo, double hi );
int choose( const std::string& name, int n );
Fm T( bool );
Fm lt( const Num&, const Num& );
Fm le( const Num&, const Num& );
Fm eq( const Num&, const Num& );
inline Fm gt( const Num& a, const Num& b ) { return lt(b,a); }
inline Fm ge( const Num& a, const Num& b ) { return le(b,a); }
Fm near( const Num& a, const Num& b, double tol=1e-6 );
Fm And( Fm, Fm );
Fm Or( Fm, Fm );
Fm Not( Fm );
inline Fm Imp( Fm a, Fm b ) { return Or( Not(a), b ); }
inline Fm Iff( Fm a, Fm b ) { return And( Imp(a,b), Imp(b,a) ); }
inline Fm And( Fm a, Fm b, Fm c ) { return And(And(a,b),c); }
inline Fm And( Fm a, Fm b, Fm c, Fm d ) { return And(And(a,b),And(c,d)); }
inline Fm Or( Fm a, Fm b, Fm c ) { return Or(Or(a,b),c); }
inline Fm Or( Fm a, Fm b, Fm c, Fm d ) { return Or(Or(a,b),Or(c,d)); }
inline Fm all( const std::vector<Fm>& v ) { Fm r=T(true); for( const auto& e:v ) r=And(r,e); return r; }
inline Fm any( const std::vector<Fm>& v ) { Fm r=T(false); for( const auto& e:v ) r=Or(r,e); return r; }
void assume( Fm );
inline void assume( bool b ) { assume( T(b) ); }
void check( Fm, const std::string& label );
inline void check( bool b, const std::string& label ) { check( T(b), label ); }
void fail( const std::string& label );
void observe( const std::string& name, const Num& );
bool branch( Fm );      // explicit fork in a harness
void skip( const std::string& why );   // leave this path (outside the stated domain)
constexpr bool symbolic = true;

struct CaseReg { CaseReg( const char* name, void(*fn)() ); };

} // namespace symx

#define CASE(n) static void case_##n(); static symx::CaseReg reg_##n( #n, case_##n ); static void case_##n()

namespace std {
template<> struct is_arithmetic<symx::Num> : true_type {};
template<> struct is_floating_point<symx::Num> : true_type {};
template<> inline constexpr bool is_arithmetic_v<symx::Num> = true;
template<> inline constexpr bool is_floating_point_v<symx::Num> = true;
template<> struct numeric_limits<symx::Num> : numeric_limits<double>
{
	static symx::Num epsilon() { return numeric_limits<double>::epsilon(); }
	static symx::Num min() { return numeric_limits<double>::min(); }
	static symx::Num max() { return numeric_limits<double>::max(); }
	static symx::Num lowest() { return numeric_limits<double>::lowest(); }
	static symx::Num infinity() { return numeric_limits<double>::infinity(); }
	static symx::Num quiet_NaN() { return numeric_limits<double>::quiet_NaN(); }
};
template<> struct is_arithmetic<symx::NumL> : true_type {};
template<> struct is_floating_point<symx::NumL> : true_type {};
template<> inline constexpr bool is_arithmetic_v<symx::NumL> = true;
template<> inline constexpr bool is_floating_point_v<symx::NumL> = true;
template<> struct numeric_limits<symx::NumL> : numeric_limits<symx::Num> {};
inline symx::Num abs( const symx::Num& a )  { return symx::nabs(a); }
inline symx::Num fabs( const symx::Num& a ) { return symx::nabs(a); }
inline symx::Num sqrt( const symx::Num& a ) { return symx::nsqrt(a); }
inline symx::Num hypot( const symx::Num& a, const symx::Num& b ) { return symx::nhypot(a,b); }
template<class T, typename enable_if<symx::is_plain<T>::value,int>::type=0> symx::Num hypot( const symx::Num& a, T b ) { return symx::nhypot(a,b); }
template<class T, typename enable_if<symx::is_plain<T>::value,int>::type=0> symx::Num hypot( T a, const symx::Num& b ) { return symx::nhypot(a,b); }
inline symx::Num sin( const symx::Num& a )  { return symx::nsin(a); }
inline symx::Num cos( const symx::Num& a )  { return symx::ncos(a); }
inline symx::Num tan( const symx::Num& a )  { return symx::nsin(a)/symx::ncos(a); }
inline symx::Num acos( const symx::Num& a ) { return symx::nacos(a); }
inline symx::Num asin( const symx::Num& a ) { return symx::nasin(a); }
inline symx::Num atan( const symx::Num& a ) { return symx::natan(a); }
inline symx::Num atan2( const symx::Num& a, const symx::Num& b ) { return symx::natan2(a,b); }
template<class T, typename enable_if<symx::is_plain<T>::value,int>::type=0> symx::Num atan2( const symx::Num& a, T b ) { return symx::natan2(a,b); }
template<class T, typename enable_if<symx::is_plain<T>::value,int>::type=0> symx::Num atan2( T a, const symx::Num& b ) { return symx::natan2(a,b); }
inline symx::Num pow( const symx::Num& a, int n )
{
	if( n<0 ) return symx::Num(1)/pow(a,-n);
	symx::Num r(1); for( int i=0; i<n; i++ ) r*=a; return r;
}
inline symx::Num pow( const symx::Num& a, double e )
{
	if( e == (int)e ) return pow( a, (int)e );
	if( e == 0.5 ) return symx::nsqrt(a);
	if( a.isConst() ) return std::pow( a.c, e );
	throw symx::Unsupported{"pow"};
}
inline symx::Num fmin( const symx::Num& a, const symx::Num& b ) { return b<a?b:a; }
inline symx::Num fmax( const symx::Num& a, const symx::Num& b ) { return a<b?b:a; }
inline symx::Num fma( const symx::Num& a, const symx::Num& b, const symx::Num& c ) { return a*b+c; }
inline symx::Num copysign( const symx::Num& a, const symx::Num& b ) { auto x=symx::nabs(a); return symx::nsignbit(b)?-x:x; }
inline bool signbit( const symx::Num& a ) { return symx::nsignbit(a); }
inline bool isnan( const symx::Num& a ) { return symx::isNaN(a); }
inline bool isinf( const symx::Num& a ) { return a.isConst() && std::isinf(a.c); }
inline bool isfinite( const symx::Num& a ) { return !a.isConst() || std::isfinite(a.c); }
#define SYMX_F1(fn) inline symx::Num fn( const symx::Num& a ) { return std::fn( a.isConst()? a.c : symx::concretize(a,#fn) ); }
SYMX_F1(exp) SYMX_F1(log) SYMX_F1(cbrt)
#undef SYMX_F1
inline symx::Num trunc( const symx::Num& a ) { return a.isConst()? std::trunc(a.c) : symx::truncated(a); }
inline symx::Num floor( const symx::Num& a ) { if( a.isConst() ) return std::floor(a.c); double t=symx::truncated(a); return symx::branch( symx::lt(a,symx::Num(t)) )? t-1 : t; }
inline symx::Num ceil( const symx::Num& a ) { return -floor(-a); }
inline symx::Num round( const symx::Num& a ) { return a.isConst()? std::round(a.c) : symx::branch( symx::lt(a,symx::Num(0)) )? -symx::truncated(symx::Num(0.5)-a) : symx::truncated(a+symx::Num(0.5)); }
inline long lround( const symx::Num& a ) { return (long)round(a).c; }
inline symx::Num fmod( const symx::Num& a, const symx::Num& b ) { if( a.isConst() && b.isConst() ) return std::fmod(a.c,b.c); return a-b*trunc(a/b); }
inline string to_string( const symx::Num& a ) { ostringstream o; o<<a; return o.str(); }
} // namespace std
