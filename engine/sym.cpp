// Symbolic execution engine: canonical rational functions, path forking by re-execution,
// SMT back end (z3 -in, fallback z3 other tactic / cvc5), worker processes.
#include "sym.hpp"
#include <gmpxx.h>
#include <algorithm>
#include <array>
#include <charconv>
#include <csignal>
#include <cstdio>
#include <ctime>
#include <deque>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <poll.h>
#include <set>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace symx {

typedef mpq_class Q;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec + 1e-9*t.tv_nsec; }

// ============================================================ polynomials
struct Mono
{
	std::vector<std::pair<int,int>> v;   // (var,exp) sorted by var
};
// lex order, admissible; returns true when a > b (map is then sorted from the leading term down)
struct MGreater { bool operator()( const Mono& a, const Mono& b ) const
{
	size_t n=std::min(a.v.size(),b.v.size());
	for( size_t i=0; i<n; i++ )
	{
		if( a.v[i].first != b.v[i].first ) return a.v[i].first < b.v[i].first;
		if( a.v[i].second != b.v[i].second ) return a.v[i].second > b.v[i].second;
	}
	return a.v.size() > b.v.size();
}};
typedef std::map<Mono,Q,MGreater> PM;
struct Poly
{
	PM t;
	bool isZero() const { return t.empty(); }
	bool isConst() const { return t.empty() || (t.size()==1 && t.begin()->first.v.empty()); }
	Q cst() const { return t.empty()? Q(0): t.begin()->second; }
};
static bool operator==( const Poly& a, const Poly& b )
{
	if( a.t.size()!=b.t.size() ) return false;
	auto i=a.t.begin(); auto j=b.t.begin();
	for( ; i!=a.t.end(); ++i,++j ) if( i->first.v!=j->first.v || i->second!=j->second ) return false;
	return true;
}
struct PLess { bool operator()( const Poly& a, const Poly& b ) const
{
	auto i=a.t.begin(); auto j=b.t.begin(); MGreater g;
	for( ; i!=a.t.end() && j!=b.t.end(); ++i,++j )
	{
		if( g(i->first,j->first) ) return true;
		if( g(j->first,i->first) ) return false;
		int c=cmp(i->second,j->second); if(c) return c<0;
	}
	return i==a.t.end() && j!=b.t.end();
}};
static const size_t MAXTERMS=6000;
static Poly pconst( const Q& q ) { Poly p; if( q!=0 ) p.t[Mono()]=q; return p; }
static Poly pvar( int v ) { Poly p; Mono m; m.v.push_back({v,1}); p.t[m]=1; return p; }
static void paddTo( Poly& a, const Mono& m, const Q& q )
{
	if( q==0 ) return;
	auto r=a.t.emplace(m,q);
	if( !r.second ) { r.first->second+=q; if( r.first->second==0 ) a.t.erase(r.first); }
}
static Poly padd( const Poly& a, const Poly& b ) { Poly r=a; for( auto& e:b.t ) paddTo(r,e.first,e.second); return r; }
static Poly psub( const Poly& a, const Poly& b ) { Poly r=a; for( auto& e:b.t ) paddTo(r,e.first,-e.second); return r; }
static Poly pscale( const Poly& a, const Q& q ) { Poly r; if( q==0 ) return r; for( auto& e:a.t ) r.t[e.first]=e.second*q; return r; }
static Mono mmul( const Mono& a, const Mono& b )
{
	Mono r; size_t i=0,j=0;
	while( i<a.v.size() || j<b.v.size() )
	{
		if( j>=b.v.size() || (i<a.v.size() && a.v[i].first<b.v[j].first) ) r.v.push_back(a.v[i++]);
		else if( i>=a.v.size() || b.v[j].first<a.v[i].first ) r.v.push_back(b.v[j++]);
		else { r.v.push_back({a.v[i].first,a.v[i].second+b.v[j].second}); i++; j++; }
	}
	return r;
}
static bool mdiv( const Mono& a, const Mono& b, Mono& r )
{
	r.v.clear(); size_t i=0;
	for( auto& e:b.v )
	{
		while( i<a.v.size() && a.v[i].first<e.first ) r.v.push_back(a.v[i++]);
		if( i>=a.v.size() || a.v[i].first!=e.first || a.v[i].second<e.second ) return false;
		if( a.v[i].second>e.second ) r.v.push_back({e.first,a.v[i].second-e.second});
		i++;
	}
	while( i<a.v.size() ) r.v.push_back(a.v[i++]);
	return true;
}
static Poly pmulRaw( const Poly& a, const Poly& b )
{
	Poly r;
	if( a.t.size()*b.t.size() > 400000 ) throw Unsupported{"polynomial too large"};
	for( auto& x:a.t ) for( auto& y:b.t ) paddTo( r, mmul(x.first,y.first), x.second*y.second );
	if( r.t.size()>MAXTERMS ) throw Unsupported{"polynomial too large"};
	return r;
}

// ============================================================ variables
enum class VK { Input, Sqrt, Cos, Sin, Acos, Asin, Atan, Atan2 };
struct Var
{
	VK k=VK::Input;
	std::string name;
	double lo=-1e9, hi=1e9;       // interval
	Poly rad;                     // Sqrt: radicand
	int twin=-1;                  // Sin: the Cos atom
	Num a1,a2;                    // arguments of angle atoms (Atan2: y,x); Cos/Sin: the angle
};

static std::vector<Var> g_var;
static std::map<Poly,int,PLess> g_sqrtMemo;
static std::map<Poly,std::pair<int,int>,PLess> g_trigMemo;   // angle numerator poly -> (cos,sin)

// reduce s^2 -> radicand, sin^2 -> 1-cos^2
static Poly pmul( const Poly& a, const Poly& b );
static Poly preduce( const Poly& p )
{
	for( auto& e:p.t )
		for( auto& ve:e.first.v )
			if( ve.second>=2 && (g_var[ve.first].k==VK::Sqrt || g_var[ve.first].k==VK::Sin) )
				goto doit;
	return p;
doit:
	Poly r;
	for( auto& e:p.t )
	{
		int hit=-1;
		for( auto& ve:e.first.v )
			if( ve.second>=2 && (g_var[ve.first].k==VK::Sqrt || g_var[ve.first].k==VK::Sin) ) { hit=ve.first; break; }
		if( hit<0 ) { paddTo(r,e.first,e.second); continue; }
		Mono m; int k=0;
		for( auto& ve:e.first.v )
			if( ve.first!=hit ) m.v.push_back(ve);
			else { k=ve.second/2; if( ve.second%2 ) m.v.push_back({hit,1}); }
		Poly base;
		if( g_var[hit].k==VK::Sqrt ) base=g_var[hit].rad;
		else { Poly c=pvar(g_var[hit].twin); base=psub(pconst(1),pmulRaw(c,c)); }
		Poly acc; acc.t[m]=e.second;
		for( int i=0; i<k; i++ ) acc=pmul(acc,base);
		r=padd(r,acc);
	}
	return preduce(r);
}
static Poly pmul( const Poly& a, const Poly& b ) { return preduce(pmulRaw(a,b)); }

// exact division (plain polynomials)
static bool pdivExact( const Poly& n, const Poly& d, Poly& q )
{
	if( d.isZero() ) return false;
	if( d.isConst() ) { q=pscale(n,1/d.cst()); return true; }
	if( n.isZero() ) { q=Poly(); return true; }
	if( n.t.size()<d.t.size() && d.t.size()>1 && n.t.size()==1 ) return false;
	Poly rem=n; q=Poly();
	const Mono& ld=d.t.begin()->first; const Q& cd=d.t.begin()->second;
	size_t steps=0;
	Mono m;
	// quick reject with the trailing terms
	if( !mdiv( n.t.rbegin()->first, d.t.rbegin()->first, m ) ) return false;
	while( !rem.isZero() )
	{
		if( ++steps>2000 || rem.t.size()>MAXTERMS ) return false;
		if( !mdiv(rem.t.begin()->first,ld,m) ) return false;
		Q c=rem.t.begin()->second/cd;
		paddTo(q,m,c);
		for( auto& e:d.t ) paddTo( rem, mmul(e.first,m), -e.second*c );
	}
	return true;
}

static bool qsqrt( const Q& q, Q& r )
{
	if( q<0 ) return false;
	mpz_class n=q.get_num(), d=q.get_den(), a=sqrt(n), b=sqrt(d);
	if( a*a!=n || b*b!=d ) return false;
	r=Q(a,b); r.canonicalize(); return true;
}
static bool psqrtExact( const Poly& p, Poly& r )
{
	r=Poly();
	if( p.isZero() ) return true;
	auto lt=*p.t.begin(); Q c;
	if( !qsqrt(lt.second,c) ) return false;
	Mono m;
	for( auto& e:lt.first.v ) { if( e.second%2 ) return false; m.v.push_back({e.first,e.second/2}); }
	r.t[m]=c;
	Poly rem=psub(p,pmulRaw(r,r));
	size_t steps=0;
	while( !rem.isZero() )
	{
		if( ++steps>60 ) return false;
		Mono t;
		if( !mdiv(rem.t.begin()->first,m,t) ) return false;
		Q k=rem.t.begin()->second/(2*c);
		// the new term must be lower than the leading one
		if( !MGreater()(m,t) ) return false;
		Poly term; term.t[t]=k;
		// rem -= 2*r*term + term^2
		Poly sub=padd( pscale(pmulRaw(r,term),2), pmulRaw(term,term) );
		rem=psub(rem,sub);
		paddTo(r,t,k);
	}
	return true;
}

// ============================================================ double -> rational (shortest decimal)
static Q toQ( double d )
{
	char b[64]; auto r=std::to_chars(b,b+60,d,std::chars_format::scientific); *r.ptr=0;
	std::string s(b); auto e=s.find('e'); std::string m=s.substr(0,e); int ex=atoi(s.c_str()+e+1);
	bool neg=false; if( m[0]=='-' ) { neg=true; m=m.substr(1); }
	auto dot=m.find('.'); if( dot!=std::string::npos ) { ex-=(int)(m.size()-dot-1); m.erase(dot,1); }
	mpz_class z(m,10); mpz_class p; mpz_ui_pow_ui(p.get_mpz_t(),10,std::abs(ex));
	Q q= ex>=0 ? Q(z*p) : Q(z,p); q.canonicalize(); if( neg ) q=-q; return q;
}

// ============================================================ fractions
struct Frac
{
	Poly N;
	std::vector<std::pair<Poly,int>> D;   // factors, each > 0 on the current path
};
static Poly dProd( const std::vector<std::pair<Poly,int>>& D )
{
	Poly r=pconst(1);
	for( auto& e:D ) for( int i=0; i<e.second; i++ ) r=pmul(r,e.first);
	return r;
}
static bool isSingleVar( const Poly& p, int& v )
{
	if( p.t.size()!=1 ) return false;
	auto& m=p.t.begin()->first;
	if( m.v.size()!=1 || m.v[0].second!=1 || p.t.begin()->second!=1 ) return false;
	v=m.v[0].first; return true;
}
static Num mk( Poly N, std::vector<std::pair<Poly,int>> D )
{
	if( N.isZero() ) return Num(0);
	for( size_t i=0; i<D.size(); )
	{
		bool gone=false;
		while( D[i].second>0 )
		{
			Poly q; int v;
			if( pdivExact(N,D[i].first,q) ) { N=q; D[i].second--; continue; }
			if( isSingleVar(D[i].first,v) && g_var[v].k==VK::Sqrt && pdivExact(N,g_var[v].rad,q) )
			{ N=pmul(q,pvar(v)); D[i].second--; continue; }
			break;
		}
		if( D[i].second==0 ) { D.erase(D.begin()+i); gone=true; }
		if( !gone ) i++;
	}
	// s^2 in a denominator: replaced by the radicand (positive as well)
	if( N.isConst() && D.empty() ) return Num( N.cst().get_d() );
	auto f=std::make_shared<Frac>(); f->N=std::move(N); f->D=std::move(D);
	return Num( std::shared_ptr<const Frac>(f) );
}
static Poly numOf( const Num& a ) { return a.f ? a.f->N : pconst(toQ(a.c)); }
static std::vector<std::pair<Poly,int>> denOf( const Num& a ) { return a.f ? a.f->D : std::vector<std::pair<Poly,int>>(); }
static bool special( const Num& a ) { return !a.f && !std::isfinite(a.c); }

// ============================================================ formulas
enum class FK { True, False, Lt, Le, Eq, And, Or, Not };
struct FmNode
{
	FK k; Poly p; Fm a,b; Fm weak;  // weak: (for near) formula with a larger tolerance
	double scale=1;
};
static Fm mkF( FK k ) { auto n=std::make_shared<FmNode>(); n->k=k; return n; }
static const Fm F_TRUE=mkF(FK::True), F_FALSE=mkF(FK::False);
Fm T( bool b ) { return b?F_TRUE:F_FALSE; }
static Fm leaf( FK k, Poly p )
{
	if( p.isConst() )
	{
		int s=sgn(p.cst());
		return T( k==FK::Lt? s<0 : k==FK::Le? s<=0 : s==0 );
	}
	// normalise: |leading coefficient| = 1
	Q c=abs(p.t.begin()->second);
	if( c!=1 ) p=pscale(p,1/c);
	auto n=std::make_shared<FmNode>(); n->k=k; n->p=std::move(p); return n;
}
Fm Not( Fm a )
{
	if( a->k==FK::True ) return F_FALSE;
	if( a->k==FK::False ) return F_TRUE;
	if( a->k==FK::Not ) return a->a;
	if( a->k==FK::Lt ) { auto r=leaf(FK::Le,pscale(a->p,-1)); return r; }
	if( a->k==FK::Le ) { auto r=leaf(FK::Lt,pscale(a->p,-1)); return r; }
	auto n=std::make_shared<FmNode>(); n->k=FK::Not; n->a=a; return n;
}
Fm And( Fm a, Fm b )
{
	if( a->k==FK::False || b->k==FK::False ) return F_FALSE;
	if( a->k==FK::True ) return b;
	if( b->k==FK::True ) return a;
	auto n=std::make_shared<FmNode>(); n->k=FK::And; n->a=a; n->b=b; return n;
}
Fm Or( Fm a, Fm b )
{
	if( a->k==FK::True || b->k==FK::True ) return F_TRUE;
	if( a->k==FK::False ) return b;
	if( b->k==FK::False ) return a;
	auto n=std::make_shared<FmNode>(); n->k=FK::Or; n->a=a; n->b=b; return n;
}

// ============================================================ path state
struct Stats { long queries=0,sat=0,unsat=0,unk=0,quick=0,forks=0,byCvc=0,byAlt=0; double tsolve=0; };
struct CheckRec { long syn=0,unsat=0,viol=0,inc=0; };
static struct Path
{
	std::string prefix; size_t pos=0;
	std::vector<Fm> pc;
	std::map<Poly,int,PLess> signs;      // canonical poly (leading coeff +1) -> allowed sign mask 1:<0 2:=0 4:>0
	std::map<std::string,double> inModel;     // model for inputs received with the prefix
	std::vector<double> model;           // current model by var (NaN when unknown)
	std::vector<std::pair<std::string,double>> choices;
	std::vector<std::tuple<std::string,Num>> obs;
	std::map<std::string,CheckRec> checks;
	Stats st;
	FILE* out=nullptr;
	bool inSolver=false;
	bool modelValid=true;
	long ops=0;
	long decisions=0;
	int opaque=0;
	std::vector<std::pair<int,std::string>> toks;
	std::vector<Num> tokNum;
} P;
static double g_tq=4.;        // per-query soft limit (s)
static long   g_maxDecisions=1500;
static bool   g_thorough=false;

// ------------------------------------------------------------ numeric evaluation under the model
static double evalMono( const Mono& m, const std::vector<double>& mod )
{
	double r=1;
	for( auto& e:m.v ) { double x=mod[e.first]; for( int i=0; i<e.second; i++ ) r*=x; }
	return r;
}
static double evalP( const Poly& p, const std::vector<double>& mod, double* mag=nullptr )
{
	double s=0,g=0;
	for( auto& e:p.t ) { double x=e.second.get_d()*evalMono(e.first,mod); s+=x; g+=std::fabs(x); }
	if( mag ) *mag=g;
	return s;
}
static double evalN( const Num& a, const std::vector<double>& mod )
{
	if( !a.f ) return a.c;
	double d=1; for( auto& e:a.f->D ) d*=std::pow( evalP(e.first,mod), e.second );
	return evalP(a.f->N,mod)/d;
}
static double evalVar( int v, const std::vector<double>& mod )
{
	auto& x=g_var[v];
	switch( x.k )
	{
		case VK::Input: return mod[v];
		case VK::Sqrt: return std::sqrt( std::max(0.,evalP(x.rad,mod)) );
		case VK::Cos: return std::cos( evalN(x.a1,mod) );
		case VK::Sin: return std::sin( evalN(x.a1,mod) );
		case VK::Acos: return std::acos( std::min(1.,std::max(-1.,evalN(x.a1,mod))) );
		case VK::Asin: return std::asin( std::min(1.,std::max(-1.,evalN(x.a1,mod))) );
		case VK::Atan: return std::atan( evalN(x.a1,mod) );
		case VK::Atan2: return std::atan2( evalN(x.a1,mod), evalN(x.a2,mod) );
	}
	return 0;
}
static void refreshAtoms( std::vector<double>& mod )
{
	for( size_t i=0; i<g_var.size(); i++ ) if( g_var[i].k!=VK::Input ) mod[i]=evalVar((int)i,mod);
}

// ------------------------------------------------------------ exact sets of values of one variable
struct End { Q v; int eps=0; int inf=0; }; // (v,eps): just below / at / just above v
static int ecmp( const End& a, const End& b )
{
	if( a.inf||b.inf ) return a.inf<b.inf?-1: a.inf>b.inf?1:0;
	if( a.v<b.v ) return -1; if( a.v>b.v ) return 1;
	return a.eps<b.eps?-1: a.eps>b.eps?1:0;
}
typedef std::vector<std::pair<End,End>> VSet; // sorted closed intervals of ends
static End einf( int s ) { End e; e.inf=s; return e; }
static VSet vall() { return {{einf(-1),einf(1)}}; }
static VSet vinter( const VSet& a, const VSet& b )
{
	VSet r;
	for( size_t i=0,j=0; i<a.size() && j<b.size(); )
	{
		const End& lo= ecmp(a[i].first,b[j].first)<0 ? b[j].first : a[i].first;
		const End& hi= ecmp(a[i].second,b[j].second)<0 ? a[i].second : b[j].second;
		if( ecmp(lo,hi)<=0 ) r.push_back({lo,hi});
		if( ecmp(a[i].second,b[j].second)<0 ) i++; else j++;
	}
	return r;
}
static VSet vcompl( const VSet& a )
{
	VSet r; End lo=einf(-1);
	for( auto& e:a )
	{
		if( !e.first.inf ) { End h=e.first; h.eps--; if( ecmp(lo,h)<=0 ) r.push_back({lo,h}); }
		if( e.second.inf ) return r;
		lo=e.second; lo.eps++;
	}
	r.push_back({lo,einf(1)});
	return r;
}
static bool linearIn( const Poly& p, int& v, Q& c1, Q& c0 )
{
	c1=0; c0=0; v=-1;
	for( auto& e:p.t )
	{
		if( e.first.v.empty() ) { c0=e.second; continue; }
		if( e.first.v.size()!=1 || e.first.v[0].second!=1 || v>=0 ) return false;
		v=e.first.v[0].first; c1=e.second;
	}
	return v>=0;
}
static bool setOf( const Fm& f, int& v, VSet& out )
{
	switch( f->k )
	{
		case FK::Lt: case FK::Le: case FK::Eq:
		{
			int w; Q c1,c0; if( !linearIn(f->p,w,c1,c0) || (v>=0&&w!=v) ) return false;
			v=w; End r; r.v=-c0/c1;
			if( f->k==FK::Eq ) { out={{r,r}}; return true; }
			if( f->k==FK::Lt ) r.eps= c1>0? -1 : 1;
			if( c1>0 ) out={{einf(-1),r}}; else out={{r,einf(1)}};
			return true;
		}
		case FK::Not: if( !setOf(f->a,v,out) ) return false; out=vcompl(out); return true;
		case FK::And: case FK::Or:
		{
			VSet a,b; if( !setOf(f->a,v,a) || !setOf(f->b,v,b) ) return false;
			out= f->k==FK::And ? vinter(a,b) : vcompl(vinter(vcompl(a),vcompl(b)));
			return true;
		}
		default: return false;
	}
}
struct Dom { VSet s; double lo,hi; };
static std::map<int,Dom> g_dom;
static double dnear( const End& e, bool lower )
{
	if( e.inf ) return e.inf*INFINITY;
	double d=e.v.get_d(); return lower? std::nextafter(std::nextafter(d,-INFINITY),-INFINITY) : std::nextafter(std::nextafter(d,INFINITY),INFINITY);
}
static Dom& domOf( int v )
{
	auto it=g_dom.find(v); if( it!=g_dom.end() ) return it->second;
	Dom d; d.lo=g_var[v].lo; d.hi=g_var[v].hi;
	End l=einf(-1), h=einf(1);
	if( std::isfinite(d.lo) ) { l=End(); l.v=toQ(d.lo); } if( std::isfinite(d.hi) ) { h=End(); h.v=toQ(d.hi); }
	if( g_var[v].k!=VK::Input && g_var[v].k!=VK::Sqrt ) { l=einf(-1); h=einf(1); }
	d.s={{l,h}};
	return g_dom[v]=d;
}
static void restrictDom( int v, const VSet& s )
{
	Dom& d=domOf(v); d.s=vinter(d.s,s); if( d.s.empty() ) return;
	d.lo=std::max(d.lo,dnear(d.s.front().first,true)); d.hi=std::min(d.hi,dnear(d.s.back().second,false));
}

// ------------------------------------------------------------ intervals
struct Iv { double lo,hi; };
static Iv imul( Iv a, Iv b )
{
	double x[4]={a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi};
	Iv r{x[0],x[0]}; for( double y:x ) { if( std::isnan(y) ) y=0; r.lo=std::min(r.lo,y); r.hi=std::max(r.hi,y); }
	return r;
}
static Iv ipow( Iv a, int n )
{
	Iv r{1,1};
	if( n%2==0 )
	{
		double l=std::fabs(a.lo),h=std::fabs(a.hi); double mx=std::max(l,h), mn=(a.lo<=0&&a.hi>=0)?0:std::min(l,h);
		return Iv{std::pow(mn,n),std::pow(mx,n)};
	}
	for( int i=0; i<n; i++ ) r=imul(r,a);
	return r;
}
static Iv ivP( const Poly& p );
static Iv ivVar( int v )
{
	const Dom& d=domOf(v); Iv r{d.lo,d.hi};
	if( g_var[v].k==VK::Sqrt )
	{
		Iv q=ivP(g_var[v].rad);
		if( q.lo>0 ) r.lo=std::max(r.lo,std::sqrt(q.lo)*(1-1e-14));
		if( q.hi<INFINITY && q.hi>=0 ) r.hi=std::min(r.hi,std::sqrt(q.hi)*(1+1e-14));
	}
	return r;
}
static Iv ivP( const Poly& p )
{
	Iv s{0,0}; double mag=0;
	// quadratic in one variable: exact range (with a pad)
	{
		int v=-1; double c[3]={0,0,0}; bool ok=true;
		for( auto& e:p.t )
		{
			if( e.first.v.empty() ) { c[0]=e.second.get_d(); continue; }
			if( e.first.v.size()!=1 || e.first.v[0].second>2 || (v>=0 && e.first.v[0].first!=v) ) { ok=false; break; }
			v=e.first.v[0].first; c[e.first.v[0].second]=e.second.get_d();
		}
		if( ok && v>=0 && c[2]!=0 )
		{
			Iv x=ivVar(v);
			if( std::isfinite(x.lo) && std::isfinite(x.hi) )
			{
				auto f=[&]( double t ) { mag=std::max(mag,std::fabs(c[0])+std::fabs(c[1]*t)+std::fabs(c[2]*t*t)); return (c[2]*t+c[1])*t+c[0]; };
				double a=f(x.lo), b=f(x.hi); s.lo=std::min(a,b); s.hi=std::max(a,b);
				double m=-c[1]/(2*c[2]); if( m>x.lo && m<x.hi ) { double w=f(m); s.lo=std::min(s.lo,w); s.hi=std::max(s.hi,w); }
				double pad=1e-12*mag; s.lo-=pad; s.hi+=pad; return s;
			}
		}
	}
	for( auto& e:p.t )
	{
		Iv m{1,1};
		for( auto& ve:e.first.v ) m=imul(m,ipow(ivVar(ve.first),ve.second));
		double c=e.second.get_d(); Iv t=imul(m,Iv{c,c});
		s.lo+=t.lo; s.hi+=t.hi; mag+=std::max(std::fabs(t.lo),std::fabs(t.hi));
	}
	double pad=1e-13*mag; if( !p.isConst() ) { s.lo-= s.lo==0?0:pad; s.hi+= s.hi==0?0:pad; }
	return s;
}
static int maskIv( Iv i ) { int m=0; if( i.lo<0 ) m|=1; if( i.hi>0 ) m|=4; if( i.lo<=0 && i.hi>=0 ) m|=2; return m; }
static int flipMask( int m ) { return (m&2) | ((m&1)?4:0) | ((m&4)?1:0); }

static int varMask( int v );
// allowed signs of p (canonicalised internally)
static int signMask( const Poly& p )
{
	if( p.isConst() ) { int s=sgn(p.cst()); return s<0?1:s==0?2:4; }
	Poly c=p; bool neg=false;
	Q l=c.t.begin()->second;
	if( l!=1 ) { c=pscale(c,1/l); neg=l<0; }
	int m=7;
	auto it=P.signs.find(c);
	if( it!=P.signs.end() ) m&=it->second;
	if( m==1||m==2||m==4 ) return neg?flipMask(m):m;
	{
		int v; Q c1,c0;
		if( linearIn(c,v,c1,c0) )
		{
			const VSet& d=domOf(v).s; int r=0; End lo,hi; lo.v=hi.v=-c0/c1;
			for( auto& e:d )
			{
				if( ecmp(e.first,lo)<0 ) r|= c1>0?1:4;
				if( ecmp(e.second,lo)>0 ) r|= c1>0?4:1;
				if( ecmp(e.first,lo)<=0 && ecmp(e.second,lo)>=0 ) r|=2;
			}
			if( r ) m&=r;
		}
	}
	if( m==1||m==2||m==4 ) return neg?flipMask(m):m;
	m&=maskIv(ivP(c));
	// common monomial content with known signs
	if( m!=1 && m!=2 && m!=4 )
	{
		std::map<int,int> g;
		bool first=true;
		for( auto& e:c.t )
		{
			std::map<int,int> h; for( auto& ve:e.first.v ) h[ve.first]=ve.second;
			if( first ) { g=h; first=false; }
			else for( auto i=g.begin(); i!=g.end(); )
			{ auto j=h.find(i->first); if( j==h.end() ) i=g.erase(i); else { i->second=std::min(i->second,j->second); ++i; } }
			if( g.empty() ) break;
		}
		if( !g.empty() )
		{
			Mono gm; for( auto& e:g ) gm.v.push_back(e);
			Poly q; Poly d; d.t[gm]=1;
			pdivExact(c,d,q);
			int mm=4; // sign of the monomial
			for( auto& e:g )
			{
				int vm=varMask(e.first);
				if( e.second%2==0 ) vm=(vm&2)|((vm&5)?4:0);
				int r=0;
				for( int a:{1,2,4} ) if( mm&a ) for( int b:{1,2,4} ) if( vm&b )
					r|= (a==2||b==2)?2 : (a==b?4:1);
				mm=r;
			}
			int qm= q.isConst()? 4 : signMask(q);
			int r=0;
			for( int a:{1,2,4} ) if( mm&a ) for( int b:{1,2,4} ) if( qm&b )
				r|= (a==2||b==2)?2 : (a==b?4:1);
			m&=r;
		}
	}
	return neg?flipMask(m):m;
}
static int varMask( int v )
{
	auto it=P.signs.find(pvar(v));
	int m=7; if( it!=P.signs.end() ) m=it->second;
	m&=maskIv(Iv{g_var[v].lo,g_var[v].hi});
	if( g_var[v].k==VK::Sqrt )
	{
		m&=6;
		if( m==6 ) { int r=signMask(g_var[v].rad); if( r==4 ) m=4; if( r==2 ) m=2; }
	}
	return m;
}
static int evalQuick0( const Fm& f );
static int evalQuick( const Fm& f )
{
	int r=evalQuick0(f);
	if( r>=0 || (f->k!=FK::And && f->k!=FK::Or && f->k!=FK::Not) ) return r;
	int v=-1; VSet s; if( !setOf(f,v,s) ) return -1;
	const VSet& d=domOf(v).s;
	if( vinter(d,s).empty() ) return 0;
	if( vinter(d,vcompl(s)).empty() ) return 1;
	return -1;
}
static int evalQuick0( const Fm& f ) // 1 true, 0 false, -1 unknown
{
	switch( f->k )
	{
		case FK::True: return 1;
		case FK::False: return 0;
		case FK::Lt: { int m=signMask(f->p); if( m==1 ) return 1; if( !(m&1) ) return 0; return -1; }
		case FK::Le: { int m=signMask(f->p); if( !(m&4) ) return 1; if( m==4 ) return 0; return -1; }
		case FK::Eq: { int m=signMask(f->p); if( m==2 ) return 1; if( !(m&2) ) return 0; return -1; }
		case FK::Not: { int r=evalQuick(f->a); return r<0?-1:1-r; }
		case FK::And: { int a=evalQuick(f->a); if( a==0 ) return 0; int b=evalQuick(f->b); if( b==0 ) return 0; return a==1&&b==1?1:-1; }
		case FK::Or: { int a=evalQuick(f->a); if( a==1 ) return 1; int b=evalQuick(f->b); if( b==1 ) return 1; return a==0&&b==0?0:-1; }
	}
	return -1;
}
static int evalModel( const Fm& f, const std::vector<double>& mod )
{
	switch( f->k )
	{
		case FK::True: return 1;
		case FK::False: return 0;
		case FK::Lt: case FK::Le: case FK::Eq:
		{
			double g; double v=evalP(f->p,mod,&g);
			if( std::isnan(v) || std::fabs(v)<=1e-9*g ) return -1;
			if( f->k==FK::Eq ) return 0;
			return v<0?1:0;
		}
		case FK::Not: { int r=evalModel(f->a,mod); return r<0?-1:1-r; }
		case FK::And: { int a=evalModel(f->a,mod); if( a==0 ) return 0; int b=evalModel(f->b,mod); if( b==0 ) return 0; return a==1&&b==1?1:-1; }
		case FK::Or: { int a=evalModel(f->a,mod); if( a==1 ) return 1; int b=evalModel(f->b,mod); if( b==1 ) return 1; return a==0&&b==0?0:-1; }
	}
	return -1;
}
static void learn( const Fm& f )
{
	if( f->k!=FK::And ) { int v=-1; VSet s; if( setOf(f,v,s) ) restrictDom(v,s); }
	switch( f->k )
	{
		case FK::And: learn(f->a); learn(f->b); break;
		case FK::Lt: case FK::Le: case FK::Eq: case FK::Not:
		{
			const FmNode* n=f.get(); int m;
			if( f->k==FK::Not ) { n=f->a.get(); if( n->k!=FK::Eq ) return; m=5; }
			else m= f->k==FK::Lt?1 : f->k==FK::Le?3 : 2;
			Poly c=n->p; Q l=c.t.begin()->second;
			if( l!=1 ) { c=pscale(c,1/l); if( l<0 ) m=flipMask(m); }
			auto r=P.signs.emplace(c,m); if( !r.second ) r.first->second&=m;
		}
		break;
		default: break;
	}
}

// ------------------------------------------------------------ SMT text
static void collectVars( const Poly& p, std::set<int>& s ) { for( auto& e:p.t ) for( auto& v:e.first.v ) s.insert(v.first); }
static void collectVars( const Fm& f, std::set<int>& s )
{
	if( f->a ) collectVars(f->a,s);
	if( f->b ) collectVars(f->b,s);
	if( f->k==FK::Lt||f->k==FK::Le||f->k==FK::Eq ) collectVars(f->p,s);
}
static void collectN( const Num& a, std::set<int>& s ) { if( a.f ) { collectVars(a.f->N,s); for( auto& d:a.f->D ) collectVars(d.first,s); } }
static void closeVars( std::set<int>& s )
{
	std::vector<int> w(s.begin(),s.end());
	while( !w.empty() )
	{
		int v=w.back(); w.pop_back();
		std::set<int> t;
		if( g_var[v].k==VK::Sqrt ) collectVars(g_var[v].rad,t);
		if( g_var[v].k==VK::Cos || g_var[v].k==VK::Sin ) t.insert(g_var[v].twin);
		for( int x:t ) if( s.insert(x).second ) w.push_back(x);
	}
}
static std::string qstr( const Q& q )
{
	std::string n=mpz_class(abs(q.get_num())).get_str(), d=q.get_den().get_str();
	std::string r= d=="1" ? n+".0" : "(/ "+n+".0 "+d+".0)";
	return q<0 ? "(- "+r+")" : r;
}
static std::string vname( int v ) { return "v"+std::to_string(v); }
static std::string pstr( const Poly& p )
{
	if( p.t.empty() ) return "0.0";
	std::vector<std::string> ts;
	for( auto& e:p.t )
	{
		std::vector<std::string> fs;
		if( e.second!=1 || e.first.v.empty() ) fs.push_back(qstr(e.second));
		for( auto& ve:e.first.v ) for( int i=0; i<ve.second; i++ ) fs.push_back(vname(ve.first));
		if( fs.size()==1 ) ts.push_back(fs[0]);
		else { std::string s="(*"; for( auto& x:fs ) s+=" "+x; ts.push_back(s+")"); }
	}
	if( ts.size()==1 ) return ts[0];
	std::string s="(+"; for( auto& x:ts ) s+=" "+x; return s+")";
}
static std::string fstr( const Fm& f )
{
	switch( f->k )
	{
		case FK::True: return "true";
		case FK::False: return "false";
		case FK::Lt: return "(< "+pstr(f->p)+" 0.0)";
		case FK::Le: return "(<= "+pstr(f->p)+" 0.0)";
		case FK::Eq: return "(= "+pstr(f->p)+" 0.0)";
		case FK::Not: return "(not "+fstr(f->a)+")";
		case FK::And: return "(and "+fstr(f->a)+" "+fstr(f->b)+")";
		case FK::Or: return "(or "+fstr(f->a)+" "+fstr(f->b)+")";
	}
	return "";
}
static bool isLinear( const Poly& p ) { for( auto& e:p.t ) { int d=0; for( auto& v:e.first.v ) d+=v.second; if( d>1 ) return false; } return true; }
static bool isLinear( const Fm& f )
{
	if( f->a && !isLinear(f->a) ) return false;
	if( f->b && !isLinear(f->b) ) return false;
	return f->p.t.empty() || isLinear(f->p);
}

// ------------------------------------------------------------ solver process
struct Proc
{
	pid_t pid=-1; int in=-1,out=-1; std::string buf;
	void start( std::vector<std::string> cmd )
	{
		int a[2],b[2]; if( pipe(a)||pipe(b) ) return;
		pid=fork();
		if( pid==0 )
		{
			prctl(PR_SET_PDEATHSIG,SIGKILL);
			dup2(a[0],0); dup2(b[1],1); int n=open("/dev/null",O_WRONLY); dup2(n,2);
			for( int i=3; i<200; i++ ) close(i);
			struct itimerval z{}; setitimer(ITIMER_REAL,&z,nullptr);
			struct rlimit rl{3UL<<30,3UL<<30}; setrlimit(RLIMIT_AS,&rl);
			std::vector<char*> av; for( auto& s:cmd ) av.push_back(const_cast<char*>(s.c_str())); av.push_back(nullptr);
			execvp(av[0],av.data()); _exit(127);
		}
		close(a[0]); close(b[1]); in=a[1]; out=b[0]; buf.clear();
	}
	void stop() { if( pid>0 ) { kill(pid,SIGKILL); int st; waitpid(pid,&st,0); } if( in>=0 ) close(in); if( out>=0 ) close(out); pid=-1; in=out=-1; buf.clear(); }
	bool send( const std::string& s )
	{
		size_t o=0; while( o<s.size() ) { ssize_t k=write(in,s.data()+o,s.size()-o); if( k<=0 ) { if( errno==EINTR ) continue; return false; } o+=k; }
		return true;
	}
	// reads until the end marker; false on timeout / death
	bool recvUntil( const std::string& mark, double tmo, std::string& res )
	{
		double end=now()+tmo;
		for(;;)
		{
			auto p=buf.find(mark);
			if( p!=std::string::npos ) { res=buf.substr(0,p); buf.erase(0,p+mark.size()); return true; }
			double left=end-now(); if( left<=0 ) return false;
			pollfd pf{out,POLLIN,0}; int k=poll(&pf,1,(int)(left*1000)+1);
			if( k<0 && errno==EINTR ) continue;
			if( k<=0 ) continue;
			char b[65536]; ssize_t n=read(out,b,sizeof b); if( n<=0 ) { if( n<0 && errno==EINTR ) continue; return false; } buf.append(b,n);
		}
	}
};
static Proc g_z3, g_cvc;
static std::string g_z3bin="z3-new";
static std::string g_dump;

enum class R { Sat, Unsat, Unk };

static bool parseVals( const std::string& s, std::map<int,double>& out )
{
	// ((v0 1.5) (v1 (- 2.0)) (v2 (/ 1.0 3.0)) (v3 1.4142135623?))
	size_t i=0;
	auto ws=[&]{ while( i<s.size() && isspace((unsigned char)s[i]) ) i++; };
	std::function<double()> ex=[&]()->double
	{
		ws();
		if( s[i]=='(' )
		{
			i++; ws(); std::string op; while( i<s.size() && !isspace((unsigned char)s[i]) && s[i]!=')' ) op+=s[i++];
			std::vector<double> a; ws();
			while( i<s.size() && s[i]!=')' ) { a.push_back(ex()); ws(); }
			i++;
			if( op=="-" ) return a.size()==1? -a[0] : a.at(0)-a.at(1);
			if( op=="/" ) return a.at(0)/a.at(1);
			if( op=="to_real" ) return a.at(0);
			throw std::runtime_error("val "+op);
		}
		std::string t; while( i<s.size() && !isspace((unsigned char)s[i]) && s[i]!=')' ) t+=s[i++];
		if( !t.empty() && t.back()=='?' ) t.pop_back();
		return strtod(t.c_str(),nullptr);
	};
	try
	{
		ws(); if( s[i]!='(' ) return false; i++;
		for(;;)
		{
			ws(); if( i>=s.size() ) return false; if( s[i]==')' ) break;
			if( s[i]!='(' ) return false; i++; ws();
			std::string n; while( i<s.size() && !isspace((unsigned char)s[i]) ) n+=s[i++];
			double d=ex(); ws(); if( s[i]!=')' ) return false; i++;
			if( n[0]=='v' ) out[atoi(n.c_str()+1)]=d;
		}
		return true;
	}
	catch( std::exception& ) { return false; }
}

static R query( const std::vector<Fm>& extra, std::map<int,double>* model, double tmo=0, const std::map<int,Q>* fixed=nullptr )
{
	if( tmo==0 ) tmo=g_tq;
	std::set<int> vs;
	for( auto& e:extra ) collectVars(e,vs);
	closeVars(vs);
	const std::set<int> vs0=vs;
	std::vector<char> used(P.pc.size(),0);
	std::vector<std::set<int>> pv(P.pc.size());
	for( size_t i=0; i<P.pc.size(); i++ ) { collectVars(P.pc[i],pv[i]); }
	for( bool ch=true; ch; )
	{
		ch=false;
		for( size_t i=0; i<P.pc.size(); i++ ) if( !used[i] )
		{
			bool hit=false; for( int v:pv[i] ) if( vs.count(v) ) { hit=true; break; }
			if( !hit )
			{   // atoms: connection through their definitions
				std::set<int> t=pv[i]; closeVars(t);
				for( int v:t ) if( vs.count(v) ) { hit=true; break; }
			}
			if( hit ) { used[i]=1; ch=true; for( int v:pv[i] ) vs.insert(v); closeVars(vs); }
		}
	}
	std::vector<std::string> as, as0; bool lin=true;
	std::set<std::string> dup;
	for( auto& e:extra ) { as.push_back(fstr(e)); lin=lin&&isLinear(e); }
	as0=as; size_t cut=0;
	for( size_t i=0; i<P.pc.size(); i++ ) if( used[i] )
	{
		auto t=fstr(P.pc[i]); if( !dup.insert(t).second ) continue;
		lin=lin&&isLinear(P.pc[i]);
		bool in=true; for( int v:pv[i] ) if( !vs0.count(v) ) { in=false; break; }
		if( in ) as0.push_back(t); else cut++;
		as.push_back(std::move(t));
	}
	std::string decl, decl0; 
	for( int v:vs )
	{
		size_t as_before=as.size(), decl_before=decl.size();
		auto& x=g_var[v];
		decl+="(declare-fun "+vname(v)+" () Real)\n";
		if( fixed ) { auto it=fixed->find(v); if( it!=fixed->end() ) as.push_back("(= "+vname(v)+" "+qstr(it->second)+")"); }
		if( x.k==VK::Input || x.k==VK::Acos || x.k==VK::Asin || x.k==VK::Atan || x.k==VK::Atan2 )
			as.push_back("(and (<= "+qstr(toQ(x.lo))+" "+vname(v)+") (<= "+vname(v)+" "+qstr(toQ(x.hi))+"))");
		else if( x.k==VK::Sqrt )
		{
			as.push_back("(>= "+vname(v)+" 0.0)");
			as.push_back("(= (* "+vname(v)+" "+vname(v)+") "+pstr(x.rad)+")"); lin=false;
		}
		else if( x.k==VK::Sin )
		{
			std::string c=vname(x.twin), s=vname(v);
			as.push_back("(= (+ (* "+c+" "+c+") (* "+s+" "+s+")) 1.0)"); lin=false;
		}
		else if( x.k==VK::Cos && x.twin>=0 && !vs.count(x.twin) )
			as.push_back("(and (<= (- 1.0) "+vname(v)+") (<= "+vname(v)+" 1.0))");
		if( cut>4 && !fixed && vs0.count(v) ) { decl0+=decl.substr(decl_before); as0.insert(as0.end(),as.begin()+as_before,as.end()); }
	}
	std::string pre; if( cut>4 && !fixed ) { pre=decl0; for( auto& a:as0 ) pre+="(assert "+a+")\n"; }
	std::string body=decl; for( auto& a:as ) body+="(assert "+a+")\n";
	std::string vals; if( model ) { vals="(get-value ("; for( int v:vs ) vals+=vname(v)+" "; vals+="))\n"; }
	P.st.queries++;
	double t0=now(); P.inSolver=true;
	R res=R::Unk; std::string out;
	auto run=[&]( const std::string& cmd, double t )
	{
		if( g_z3.pid<=0 ) g_z3.start({g_z3bin,"-in"});
		std::string q="(reset)\n(set-option :print-success false)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n(set-option :timeout "+std::to_string((int)(t*1000))+")\n"+body+cmd+"\n(echo \"@@1\")\n";
		if( !g_dump.empty() ) { std::ofstream df(g_dump+"."+std::to_string(getpid())+"."+std::to_string(P.st.queries)+".smt2"); df<<body<<cmd<<"\n"; }
		if( !g_z3.send(q) || !g_z3.recvUntil("@@1\n",t+1.5,out) ) { g_z3.stop(); return R::Unk; }
		if( out.find("(error")!=std::string::npos ) { fprintf(stderr,"solver error: %s\n",out.substr(0,300).c_str()); return R::Unk; }
		if( out.find("unsat")!=std::string::npos ) return R::Unsat;
		if( out.find("unknown")!=std::string::npos || out.find("timeout")!=std::string::npos ) return R::Unk;
		if( out.find("sat")!=std::string::npos ) return R::Sat;
		return R::Unk;
	};
	if( !pre.empty() )
	{	// the assertions over the variables of the question only: enough for most refutations
		std::string all; all.swap(body); body=pre;
		res=run("(check-sat-using (try-for qfnra-nlsat 300))",0.4);
		body.swap(all);
	}
	if( res==R::Unsat ) {}
	else if( lin ) res=run("(check-sat)",tmo);
	else
	{
		res=R::Unk;
		double t1=std::min(tmo,fixed?1.0:1.0);
		res=run("(check-sat-using (try-for qfnra-nlsat "+std::to_string((int)(t1*1000))+"))",t1+0.1);
		if( res==R::Unk && !fixed && tmo>t1 )
		{   // portfolio of one-shot processes
			int ms=(int)(tmo*1000);
			struct S { Proc p; std::string acc; int kind; bool dead=false; };
			std::vector<S> ps(3);
			std::string gv= vals.empty()? "" : vals;
			ps[0].kind=0; ps[0].p.start({"z3-new","-in"});
			ps[0].p.send("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n"+body+"(check-sat)\n"+gv+"(exit)\n");
			ps[1].kind=1; ps[1].p.start({"z3","-in"});
			ps[1].p.send("(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 20)\n"+body+"(check-sat-using qfnra-nlsat)\n"+gv+"(exit)\n");
			ps[2].kind=2; ps[2].p.start({"cvc5","--lang","smt2","--tlimit",std::to_string(ms),"-"});
			ps[2].p.send("(set-logic QF_NRA)\n"+body+"(check-sat)\n");
			for( auto& e:ps ) { close(e.p.in); e.p.in=-1; }
			double end=now()+tmo; int alive=3;
			while( res==R::Unk && now()<end && alive>0 )
			{
				pollfd pf[3]; for( int i=0; i<3; i++ ) pf[i]={ps[i].dead?-1:ps[i].p.out,POLLIN,0};
				int k=poll(pf,3,50); if( k<=0 ) continue;
				for( int i=0; i<3; i++ ) if( pf[i].revents && !ps[i].dead )
				{
					char b[65536]; ssize_t n=read(ps[i].p.out,b,sizeof b);
					if( n<=0 ) { ps[i].dead=true; alive--; } else ps[i].acc.append(b,n);
					auto nl=ps[i].acc.find('\n'); if( nl==std::string::npos ) continue;
					std::string ans=ps[i].acc.substr(0,nl);
					if( ans=="unsat" ) { res=R::Unsat; if( ps[i].kind==2 ) P.st.byCvc++; else P.st.byAlt++; break; }
					if( ans=="sat" && ps[i].kind!=2 && (gv.empty()||ps[i].dead) )
					{ res=R::Sat; P.st.byAlt++; if( model && !parseVals(ps[i].acc.substr(nl+1),*model) ) model->clear(); break; }
				}
			}
			for( auto& e:ps ) e.p.stop();
			if( res==R::Sat ) { P.inSolver=false; P.st.tsolve+=now()-t0; P.st.sat++; return res; }
		}
	}
	if( res==R::Sat && model )
	{
		std::string mo;
		if( g_z3.send(vals+"(echo \"@@2\")\n") && g_z3.recvUntil("@@2\n",5,mo) ) { if( !parseVals(mo,*model) ) { if( getenv("SYMX_DEBUG") ) fprintf(stderr,"model parse failure: %s\n",mo.substr(0,200).c_str()); model->clear(); } }
		else g_z3.stop();
	}
	P.inSolver=false;
	double dt=now()-t0; P.st.tsolve+=dt;
	if( getenv("SYMX_SLOW") && dt>atof(getenv("SYMX_SLOW")) ) { fprintf(stderr,"slow query %.2fs res=%d vars=%zu asserts=%zu\n",dt,(int)res,vs.size(),as.size()); static int k=0; std::ofstream df("/tmp/slow."+std::to_string(getpid())+"."+std::to_string(k++)+".smt2"); df<<body<<"(check-sat)\n"; }
	if( res==R::Sat ) P.st.sat++; else if( res==R::Unsat ) P.st.unsat++; else P.st.unk++;
	return res;
}
static std::vector<double> mergeModel( const std::map<int,double>& m )
{
	auto r=P.model; r.resize(g_var.size(),0.);
	for( auto& e:m ) if( g_var[e.first].k==VK::Input ) r[e.first]=e.second;
	// angles appearing only through cos/sin atoms: recover the angle from the atoms
	for( auto& e:m ) if( g_var[e.first].k==VK::Cos && g_var[e.first].twin>=0 )
	{
		auto& a=g_var[e.first].a1; int v;
		if( a.f && a.f->D.empty() && isSingleVar(a.f->N,v) && g_var[v].k==VK::Input )
		{
			auto s=m.find(g_var[e.first].twin); double sv= s==m.end()? std::sqrt(std::max(0.,1-e.second*e.second)) : s->second;
			r[v]=std::atan2( sv, e.second );
			if( r[v]<g_var[v].lo ) r[v]+=2*M_PI;
			if( r[v]>g_var[v].hi ) r[v]-=2*M_PI;
		}
	}
	refreshAtoms(r);
	return r;
}
static std::string modelStr( const std::vector<double>& m )
{
	std::string s; char b[64];
	for( size_t i=0; i<g_var.size(); i++ ) if( g_var[i].k==VK::Input )
	{ snprintf(b,sizeof b,"%.17g", i<m.size()? m[i]:0.); s+=g_var[i].name+"="+b+" "; }
	for( auto& c:P.choices ) { snprintf(b,sizeof b,"%g",c.second); s+=c.first+"="+b+" "; }
	return s;
}
static void assertPC( Fm f ) { learn(f); P.pc.push_back(f); }
static void emitPrefix( const std::string& pre, const std::vector<double>& m )
{
	fprintf(P.out,"P %s %s\n",pre.c_str(),modelStr(m).c_str());
}
bool decide( Fm f )
{
	P.ops++;
	int q=evalQuick(f);
	if( q>=0 ) { P.st.quick++; return q; }
	if( P.pos<P.prefix.size() )
	{
		bool b=P.prefix[P.pos++]=='1';
		assertPC( b?f:Not(f) );
		return b;
	}
	if( ++P.decisions>g_maxDecisions ) throw PathEnd{"decision-cap"};
	P.model.resize(g_var.size(),0.);
	int mv= P.modelValid ? evalModel(f,P.model) : -1;
	bool dir; R other; std::map<int,double> m;
	if( mv>=0 )
	{
		dir=mv;
		other=query({dir?Not(f):f},&m);
		if( other!=R::Unsat )
		{
			P.st.forks++;
			emitPrefix( P.prefix+(dir?'0':'1'), other==R::Sat&&!m.empty() ? mergeModel(m) : P.model );
		}
	}
	else
	{
		std::map<int,double> m1,m0;
		R a=query({f},&m1);
		R b= a==R::Unsat ? R::Sat : query({Not(f)},&m0);
		dir= a!=R::Unsat;
		if( dir && a==R::Unk && b==R::Sat ) dir=false;
		if( a!=R::Unsat && b!=R::Unsat )
		{
			P.st.forks++;
			auto& mo= dir?m0:m1;
			emitPrefix( P.prefix+(dir?'0':'1'), !mo.empty()? mergeModel(mo) : P.model );
		}
		auto& mm= dir?m1:m0;
		if( !mm.empty() ) { P.model=mergeModel(mm); P.modelValid=true; }
	}
	P.prefix+= dir?'1':'0'; P.pos=P.prefix.size();
	assertPC( dir?f:Not(f) );
	return dir;
}
bool branch( Fm f ) { return decide(f); }

static int newVar( Var v )
{
	int id=(int)g_var.size();
	g_var.push_back(std::move(v));
	P.model.resize(g_var.size(),0.);
	if( g_var[id].k!=VK::Input ) P.model[id]=evalVar(id,P.model);
	return id;
}
Num in( const std::string& name, double lo, double hi )
{
	Var v; v.k=VK::Input; v.name=name; v.lo=lo; v.hi=hi;
	int id=newVar(v);
	auto it=P.inModel.find(name);
	double d;
	if( it!=P.inModel.end() ) d=it->second;
	else { // spread default values
		unsigned h=2166136261u; for( char c:name ) h=(h^c)*16777619u;
		d= lo+(hi-lo)*(0.1+0.8*((h%1009)/1009.));
		double r=std::round(d*4)/4; if( r>=lo && r<=hi ) d=r;
	}
	P.model[id]=d;
	return mk(pvar(id),{});
}
int choose( const std::string& name, int n )
{
	int k=0;
	if( n>1 )
	{
		if( P.pos<P.prefix.size() ) k=P.prefix[P.pos++]-'A';
		else
		{
			P.choices.push_back({name,0});
			for( int i=1; i<n; i++ ) { P.choices.back().second=i; emitPrefix( P.prefix+char('A'+i), P.model ); }
			P.choices.pop_back();
			P.prefix+='A'; P.pos=P.prefix.size(); P.st.forks+=n-1;
		}
	}
	P.choices.push_back({name,(double)k});
	return k;
}

// ------------------------------------------------------------ arithmetic
static Num withSpecial( double a, double b, char op )
{
	switch( op ) { case '+': return a+b; case '-': return a-b; case '*': return a*b; default: return a/b; }
}
static double sgnOf( const Num& a ) // forks
{
	if( a.isConst() ) return a.c;
	if( decide(lt(a,Num(0))) ) return -1;
	if( decide(lt(Num(0),a)) ) return 1;
	return 0;
}
// constants stand for reals: the rounding noise of folded operations is dropped when a short decimal is within it
static double tidy( double x, double mag )
{
	if( !(std::fabs(x)<1e15) || x==(double)(long)x ) return x;
	double e=4.5e-16*std::max(mag,std::fabs(x));
	if( std::fabs(x)<=e ) return 0;
	int dig=14-(int)std::floor(std::log10(std::max(mag,std::fabs(x))/std::fabs(x)));
	if( dig<1 ) return x;
	char b[64]; snprintf(b,sizeof b,"%.*g",dig,x); double r=strtod(b,nullptr);
	return std::fabs(r-x)<=e ? r : x;
}

static Num addsub( const Num& a, const Num& b, bool sub )
{
	P.ops++;
	if( a.isConst() && b.isConst() ) return Num( tidy( sub? a.c-b.c : a.c+b.c, std::max(std::fabs(a.c),std::fabs(b.c)) ) );
	if( special(a) ) return a;
	if( special(b) ) return sub? Num(-b.c) : b;
	if( b.isConst() && b.c==0 ) return a;
	if( a.isConst() && a.c==0 && !sub ) return b;
	auto Da=denOf(a), Db=denOf(b);
	Poly Na=numOf(a), Nb=numOf(b);
	// lcm of factored denominators
	std::vector<std::pair<Poly,int>> L=Da;
	Poly ma=pconst(1), mb=pconst(1);
	for( auto& e:Db )
	{
		bool found=false;
		for( auto& l:L ) if( l.first==e.first )
		{
			found=true;
			if( e.second>l.second ) { for( int i=l.second; i<e.second; i++ ) ma=pmul(ma,e.first); l.second=e.second; }
		}
		if( !found ) { L.push_back(e); for( int i=0; i<e.second; i++ ) ma=pmul(ma,e.first); }
	}
	for( auto& l:L )
	{
		int eb=0; for( auto& e:Db ) if( e.first==l.first ) eb=e.second;
		for( int i=eb; i<l.second; i++ ) mb=pmul(mb,l.first);
	}
	Poly x=pmul(Na,ma), y=pmul(Nb,mb);
	return mk( sub? psub(x,y):padd(x,y), L );
}
Num nadd( const Num& a, const Num& b ) { return addsub(a,b,false); }
Num nsub( const Num& a, const Num& b ) { return addsub(a,b,true); }
static void dmul( std::vector<std::pair<Poly,int>>& D, const Poly& f, int e )
{
	for( auto& d:D ) if( d.first==f )
	{
		d.second+=e; return;
	}
	D.push_back({f,e});
}
// s^2 factors in a denominator become the radicand
static void normDen( std::vector<std::pair<Poly,int>>& D )
{
	for( bool ch=true; ch; )
	{
		ch=false;
		for( size_t i=0; i<D.size(); i++ )
		{
			int v;
			if( D[i].second>=2 && isSingleVar(D[i].first,v) && g_var[v].k==VK::Sqrt )
			{
				int k=D[i].second/2; int r=D[i].second%2;
				Poly rad=g_var[v].rad;
				if( r ) D[i].second=1; else D.erase(D.begin()+i);
				dmul(D,rad,k); ch=true; break;
			}
		}
	}
}
Num nmul( const Num& a, const Num& b )
{
	P.ops++;
	if( a.isConst() && b.isConst() ) return Num( tidy(a.c*b.c,0) );
	if( special(a) ) { if( std::isnan(a.c) ) return a; return a.c*sgnOf(b); }
	if( special(b) ) { if( std::isnan(b.c) ) return b; return b.c*sgnOf(a); }
	if( a.isConst() && a.c==1 ) return b;
	if( b.isConst() && b.c==1 ) return a;
	auto D=denOf(a); for( auto& e:denOf(b) ) dmul(D,e.first,e.second);
	normDen(D);
	return mk( pmul(numOf(a),numOf(b)), D );
}
Num ndiv( const Num& a, const Num& b )
{
	P.ops++;
	if( a.isConst() && b.isConst() ) return Num( tidy(a.c/b.c,0) );
	if( special(a) ) { if( std::isnan(a.c) ) return a; double s=sgnOf(b); return a.c/s; }
	if( special(b) ) { if( std::isnan(b.c) ) return b; return 0.; }
	if( b.isConst() )
	{
		if( b.c==0 ) { double s=sgnOf(a); return s/b.c; }
		return mk( pscale(numOf(a),1/toQ(b.c)), denOf(a) );
	}
	double s=sgnOf(b);
	if( s==0 ) { double t=sgnOf(a); return t/0.; }
	Poly nb=b.f->N;
	if( s<0 ) nb=pscale(nb,-1);
	Q c=abs(nb.t.begin()->second); nb=pscale(nb,1/c);
	// numerator: Na * Db ; denominator: Da * Nb
	Poly N=numOf(a);
	std::vector<std::pair<Poly,int>> D=denOf(a);
	for( auto& e:b.f->D )
	{
		int k=e.second;
		for( size_t i=0; i<D.size() && k>0; i++ ) if( D[i].first==e.first )
		{ int m=std::min(k,D[i].second); D[i].second-=m; k-=m; }
		for( int i=0; i<k; i++ ) N=pmul(N,e.first);
	}
	D.erase( std::remove_if(D.begin(),D.end(),[](auto& e){return e.second==0;}), D.end() );
	// pull the positive sqrt atoms out of a monomial denominator
	if( nb.t.size()==1 )
	{
		Mono rest; Q lc=nb.t.begin()->second; // 1 or -1
		for( auto& ve:nb.t.begin()->first.v )
			if( g_var[ve.first].k==VK::Sqrt ) dmul(D,pvar(ve.first),ve.second);
			else rest.v.push_back(ve);
		Poly r; r.t[rest]=lc;
		if( !rest.v.empty() ) dmul(D,r,1); else if( lc<0 ) N=pscale(N,-1);
	}
	else dmul(D,nb,1);
	normDen(D);
	Q sc=Q(s<0?-1:1)/c;
	return mk( pscale(N,sc), D );
}
bool isNaN( const Num& a ) { return a.isConst() && std::isnan(a.c); }

// ------------------------------------------------------------ comparisons
static bool angleVar( const Poly& p, int& v, double& k, double& coef )
{
	// p = coef*theta + c0, theta an angle atom: root k
	v=-1; double c0=0; coef=0;
	for( auto& e:p.t )
	{
		if( e.first.v.empty() ) c0=e.second.get_d();
		else if( e.first.v.size()==1 && e.first.v[0].second==1 && v<0 )
		{ v=e.first.v[0].first; coef=e.second.get_d(); }
		else return false;
	}
	if( v<0 ) return false;
	auto K=g_var[v].k;
	if( !(K==VK::Acos||K==VK::Asin||K==VK::Atan||K==VK::Atan2) ) return false;
	k=-c0/coef; return true;
}
static Fm angLt( int v, double k ); // theta < k
static Fm angGt( int v, double k );
static const double PI=3.14159265358979323846;
// angle of the vector (x,y), as atan2(y,x)
static Fm dirLt( const Num& y, const Num& x, double k )
{
	Num z(0);
	if( k<=-PI ) return F_FALSE;
	if( k>PI+1e-12 ) return F_TRUE;
	if( k>=PI-1e-12 ) return Not( And( eq(y,z), lt(x,z) ) );
	if( k==0 ) return lt(y,z);
	if( k>0 ) return Not( Or( And( gt(y,z), ge( Num(std::cos(k))*y-Num(std::sin(k))*x, z ) ), And( eq(y,z), lt(x,z) ) ) );
	return And( lt(y,z), lt( Num(std::cos(k))*y-Num(std::sin(k))*x, z ) );
}
static Fm dirGt( const Num& y, const Num& x, double k )
{
	Num z(0);
	if( k>=PI-1e-12 ) return F_FALSE;
	if( k<=-PI+1e-12 ) return F_TRUE;
	if( k>=0 ) return Or( And( gt(y,z), gt( Num(std::cos(k))*y-Num(std::sin(k))*x, z ) ), And( eq(y,z), lt(x,z) ) );
	// k<0: not (theta<=k): theta<=k <=> y<0 and cross<=0
	return Not( And( lt(y,z), le( Num(std::cos(k))*y-Num(std::sin(k))*x, z ) ) );
}
static Fm angLt( int v, double k )
{
	Num u=g_var[v].a1;
	switch( g_var[v].k )
	{
		case VK::Acos: if( k<=0 ) return F_FALSE; if( k>PI-1e-12 ) return k>PI+1e-12? F_TRUE : lt(Num(-1),u); return lt(Num(std::cos(k)),u);
		case VK::Asin: if( k<=-PI/2 ) return F_FALSE; if( k>PI/2+1e-12 ) return F_TRUE; return lt(u,Num(std::sin(k)));
		case VK::Atan: if( k<=-PI/2 ) return F_FALSE; if( k>=PI/2 ) return F_TRUE; return lt(u,Num(std::tan(k)));
		default: break;
	}
	return dirLt( g_var[v].a1, g_var[v].a2, k );
}
static Fm angGt( int v, double k )
{
	Num u=g_var[v].a1;
	switch( g_var[v].k )
	{
		case VK::Acos: if( k<0 ) return F_TRUE; if( k>=PI-1e-12 ) return F_FALSE; return lt(u,Num(std::cos(k)));
		case VK::Asin: if( k>=PI/2 ) return F_FALSE; if( k<-PI/2-1e-12 ) return F_TRUE; return lt(Num(std::sin(k)),u);
		case VK::Atan: if( k>=PI/2 ) return F_FALSE; if( k<=-PI/2 ) return F_TRUE; return lt(Num(std::tan(k)),u);
		default: break;
	}
	return dirGt( g_var[v].a1, g_var[v].a2, k );
}
// difference of the angles of two directions, A-B < k (strict) or <= k
struct Dir { Num x,y; };
static Fm diffCmp( const Dir& A, const Dir& B, double k, bool strict )
{
	if( k<0 || ( k==0 && strict ) ) return Not( diffCmp(B,A,-k,!strict) );
	if( k>=2*PI-1e-12 ) return F_TRUE;
	Num z(0), c=B.x*A.y-B.y*A.x, d=A.x*B.x+A.y*B.y;
	Fm lowA=lt(A.y,z), lowB=lt(B.y,z), over=And( And(Not(lowA),lowB), lt(c,z) );
	auto w=[&]( double q ) { return strict? dirLt(c,d,q) : Not(dirGt(c,d,q)); };
	if( k>PI+1e-12 || ( !strict && k>=PI-1e-12 ) ) return Or( Not(over), w(k-2*PI) );
	Fm under=And( lowA, Not(lowB) ), edge=And( And(eq(A.y,z),gt(A.x,z)), And(eq(B.y,z),lt(B.x,z)) );
	return Or( Or(under,edge), And( Not(over), w(k) ) );
}
static bool angleVars( const Poly& p, int& v, int& w, bool& minus, double& k, double& coef )
{
	// p = coef*(theta1 +- theta2) + c0
	v=w=-1; double c0=0, c2=0; coef=0;
	for( auto& e:p.t )
	{
		if( e.first.v.empty() ) c0=e.second.get_d();
		else if( e.first.v.size()==1 && e.first.v[0].second==1 && w<0 )
		{
			int id=e.first.v[0].first; double q=e.second.get_d();
			if( g_var[id].k!=VK::Atan2 ) return false;
			if( v<0 ) { v=id; coef=q; } else { w=id; c2=q; }
		}
		else return false;
	}
	if( w<0 || ( c2!=coef && c2!=-coef ) ) return false;
	minus= c2!=coef; k=-c0/coef; return true;
}
// theta1 +- theta2 compared to k
static Fm pairCmp( int v, int w, bool minus, double k, bool strict )
{
	Dir A{ g_var[v].a2, g_var[v].a1 }, B{ g_var[w].a2, g_var[w].a1 };
	if( minus ) return diffCmp(A,B,k,strict);
	Num z(0); Fm edge=And( eq(B.y,z), lt(B.x,z) ); Dir C{ B.x, -B.y };
	return Or( And( edge, strict? dirLt(A.y,A.x,k-PI) : Not(dirGt(A.y,A.x,k-PI)) ), And( Not(edge), diffCmp(A,C,k,strict) ) );
}
static Fm cmpF( const Num& a, const Num& b, FK rel )
{
	if( special(a) || special(b) )
	{
		double x=a.isConst()? a.c:0., y=b.isConst()? b.c:0.;
		return T( rel==FK::Lt? x<y : rel==FK::Le? x<=y : x==y );
	}
	if( a.isConst() && b.isConst() ) return T( rel==FK::Lt? a.c<b.c : rel==FK::Le? a.c<=b.c : a.c==b.c );
	Num d=nsub(a,b);
	if( d.isConst() ) return T( rel==FK::Lt? d.c<0 : rel==FK::Le? d.c<=0 : d.c==0 );
	const Poly& p=d.f->N;
	int v; double k,co;
	if( angleVar(p,v,k,co) )
	{
		Fm l=angLt(v,k), g=angGt(v,k);
		if( co<0 ) std::swap(l,g);
		if( rel==FK::Lt ) return l;
		if( rel==FK::Le ) return Not(g);
		return And(Not(l),Not(g));
	}
	int v2; bool minus;
	if( angleVars(p,v,v2,minus,k,co) )
	{
		auto lt_=[&]{ return co>0? pairCmp(v,v2,minus,k,true) : Not(pairCmp(v,v2,minus,k,false)); };
		auto le_=[&]{ return co>0? pairCmp(v,v2,minus,k,false) : Not(pairCmp(v,v2,minus,k,true)); };
		if( rel==FK::Lt ) return lt_();
		if( rel==FK::Le ) return le_();
		return And( le_(), Not(lt_()) );
	}
	return leaf(rel,p);
}
Fm lt( const Num& a, const Num& b ) { return cmpF(a,b,FK::Lt); }
Fm le( const Num& a, const Num& b ) { return cmpF(a,b,FK::Le); }
Fm eq( const Num& a, const Num& b ) { return cmpF(a,b,FK::Eq); }
bool decideCmp( const Num& a, const Num& b, int rel )
{
	P.ops++;
	return decide( cmpF(a,b, rel==0?FK::Lt: rel==1?FK::Le: FK::Eq) );
}
Fm near( const Num& a, const Num& b, double tol )
{
	if( special(a) || special(b) ) return T( a.isConst()&&b.isConst()&& a.c==b.c );
	Num d=a-b;
	if( d.isConst() ) return T( std::fabs(d.c)<=tol );
	Fm f=And( le(d,Num(tol)), ge(d,Num(-tol)) );
	if( f->k==FK::True || f->k==FK::False ) return f;
	auto n=std::make_shared<FmNode>(*f);
	double w=std::max(tol*1000,1e-3);
	n->weak=And( le(d,Num(w)), ge(d,Num(-w)) );
	return n;
}

// ------------------------------------------------------------ functions
// conversion to an integer type: one path per integer value
double truncated( const Num& a )
{
	bool neg=branch( lt(a,Num(0)) ); Num m= neg? -a : a; double lo=0, hi=1;
	while( !branch( lt(m,Num(hi)) ) ) { lo=hi; hi*=2; if( hi>1048576 ) throw Unsupported{"conversion of a large value to an integer"}; }
	while( hi-lo>1 ) { double mid=std::floor((lo+hi)/2); if( branch( lt(m,Num(mid)) ) ) hi=mid; else lo=mid; }
	return neg? -lo : lo;
}
double concretize( const Num&, const char* what ) { throw Unsupported{std::string("concretisation of a symbolic value: ")+what}; }
Num nabs( const Num& a )
{
	if( a.isConst() ) return std::fabs(a.c);
	return decide(lt(a,Num(0))) ? -a : a;
}
bool nsignbit( const Num& a )
{
	if( a.isConst() ) return std::signbit(a.c);
	return decide(lt(a,Num(0)));
}
static Num sqrtPoly( const Poly& p0, bool sos=false )
{
	if( p0.isConst() ) return Num( std::sqrt(p0.cst().get_d()) );
	// content: largest square factor pulled out
	Q lc=abs(p0.t.begin()->second);
	Poly p=pscale(p0,1/lc);
	Num fac;
	Q r; 
	if( qsqrt(lc,r) ) fac=mk(pconst(r),{});
	else fac=Num(std::sqrt(lc.get_d()));   // irrational content: nearest double
	if( !qsqrt(lc,r) )
	{   // keep exact: do not normalise
		p=p0; fac=Num(1);
		Poly m;
		if( psqrtExact(p,m) ) return nabs(mk(m,{}));
	}
	Poly m;
	if( psqrtExact(p,m) ) return fac*nabs(mk(m,{}));
	auto it=g_sqrtMemo.find(p);
	if( it!=g_sqrtMemo.end() ) return fac*mk(pvar(it->second),{});
	// known radicand times a perfect square; product of two known radicands times a perfect square
	for( int pass=0; pass<2; pass++ )
		for( size_t i=0; i<g_var.size(); i++ ) if( g_var[i].k==VK::Sqrt )
		{
			Poly q1;
			if( !pdivExact(p,g_var[i].rad,q1) ) continue;
			if( pass==0 )
			{
				if( psqrtExact(q1,m) ) return fac*mk(pvar((int)i),{})*nabs(mk(m,{}));
				continue;
			}
			for( size_t j=i+1; j<g_var.size(); j++ ) if( g_var[j].k==VK::Sqrt )
			{
				Poly q2;
				if( pdivExact(q1,g_var[j].rad,q2) && psqrtExact(q2,m) )
					return fac*mk(pvar((int)i),{})*mk(pvar((int)j),{})*nabs(mk(m,{}));
			}
		}
	// monomial square content
	{
		std::map<int,int> g; bool first=true;
		for( auto& e:p.t )
		{
			std::map<int,int> h; for( auto& ve:e.first.v ) h[ve.first]=ve.second;
			if( first ) { g=h; first=false; }
			else for( auto i=g.begin(); i!=g.end(); )
			{ auto j=h.find(i->first); if( j==h.end() ) i=g.erase(i); else { i->second=std::min(i->second,j->second); ++i; } }
		}
		Mono gm,hm; for( auto& e:g ) if( e.second/2>0 ) { gm.v.push_back({e.first,e.second/2*2}); hm.v.push_back({e.first,e.second/2}); }
		if( !gm.v.empty() )
		{
			Poly d,h,q; d.t[gm]=1; h.t[hm]=1;
			if( pdivExact(p,d,q) ) return fac*nabs(mk(h,{}))*sqrtPoly(q,sos);
		}
	}
	if( !sos )
	{
		Num pn=mk(p,{});
		if( decide(lt(pn,Num(0))) ) return std::nan("");
	}
	Iv iv=ivP(p);
	Var v; v.k=VK::Sqrt; v.rad=p; v.lo=std::sqrt(std::max(0.,iv.lo))*(1-1e-12); v.hi=std::sqrt(std::max(0.,iv.hi))*(1+1e-12); v.name="sqrt";
	int id=newVar(v);
	g_sqrtMemo[p]=id;
	return fac*mk(pvar(id),{});
}
Num nsqrt( const Num& a )
{
	if( a.isConst() ) return tidy(std::sqrt(a.c),0);
	Num n=sqrtPoly(a.f->N);
	if( isNaN(n) ) return n;
	std::vector<std::pair<Poly,int>> D;
	Num d(1);
	for( auto& e:a.f->D )
	{
		if( e.second/2>0 ) dmul(D,e.first,e.second/2);
		if( e.second%2 ) d=d*sqrtPoly(e.first,true);
	}
	if( !D.empty() ) n=mk(numOf(n),[&]{ auto x=denOf(n); for( auto& e:D ) dmul(x,e.first,e.second); normDen(x); return x; }());
	if( d.isConst() && d.c==1 ) return n;
	return n/d;
}
Num nhypot( const Num& a, const Num& b )
{
	if( a.isConst() && b.isConst() ) return tidy(std::hypot(a.c,b.c),0);
	if( special(a)||special(b) ) { if( isNaN(a)||isNaN(b) ) return std::nan(""); return INFINITY; }
	Num s=a*a+b*b;
	if( s.isConst() ) return tidy(std::sqrt(s.c),0);
	// sum of squares: never negative
	Num n=sqrtPoly(s.f->N,true);
	std::vector<std::pair<Poly,int>> D; Num d(1);
	for( auto& e:s.f->D )
	{
		if( e.second/2>0 ) dmul(D,e.first,e.second/2);
		if( e.second%2 ) d=d*sqrtPoly(e.first,true);
	}
	if( !D.empty() ) n=mk(numOf(n),[&]{ auto x=denOf(n); for( auto& e:D ) dmul(x,e.first,e.second); normDen(x); return x; }());
	if( d.isConst() && d.c==1 ) return n;
	return n/d;
}
static double snap( double x ) { return std::fabs(x)<1e-15 ? 0. : std::fabs(x-1)<1e-15? 1. : std::fabs(x+1)<1e-15 ? -1. : x; }
static void sincos( const Num& a, Num& s, Num& c );
static void sincosTerm( const Poly& term, Num& s, Num& c ) // one monomial (coef*mono), non constant
{
	Q co=term.t.begin()->second; const Mono& m=term.t.begin()->first;
	bool neg=co<0; Q ac=abs(co);
	// integer multiples
	int mult=1; Q base=ac;
	if( ac.get_den()==1 && ac.get_num()<=8 && ac.get_num()>=1 ) { mult=(int)ac.get_num().get_si(); base=1; }
	Num s1,c1;
	int v= m.v.size()==1 && m.v[0].second==1 ? m.v[0].first : -1;
	if( v>=0 && base==1 && g_var[v].k!=VK::Input && g_var[v].k!=VK::Sqrt && g_var[v].k!=VK::Cos && g_var[v].k!=VK::Sin )
	{
		Num u=g_var[v].a1;
		switch( g_var[v].k )
		{
			case VK::Acos: c1=u; s1=nsqrt(Num(1)-u*u); break;
			case VK::Asin: s1=u; c1=nsqrt(Num(1)-u*u); break;
			case VK::Atan: { Num h=nhypot(Num(1),u); c1=Num(1)/h; s1=u/h; } break;
			default: { Num h=nhypot(g_var[v].a1,g_var[v].a2); c1=g_var[v].a2/h; s1=g_var[v].a1/h; }
		}
	}
	else
	{
		Poly k; k.t[m]=base;
		auto it=g_trigMemo.find(k);
		if( it==g_trigMemo.end() )
		{
			Var c_; c_.k=VK::Cos; c_.a1=mk(k,{}); c_.lo=-1; c_.hi=1; c_.name="cos"; int ci=newVar(c_);
			Var s_; s_.k=VK::Sin; s_.a1=mk(k,{}); s_.lo=-1; s_.hi=1; s_.name="sin"; s_.twin=ci; int si=newVar(s_);
			g_var[ci].twin=si;
			it=g_trigMemo.emplace(k,std::make_pair(ci,si)).first;
		}
		c1=mk(pvar(it->second.first),{}); s1=mk(pvar(it->second.second),{});
	}
	c=c1; s=s1;
	for( int i=1; i<mult; i++ ) { Num nc=c*c1-s*s1, ns=s*c1+c*s1; c=nc; s=ns; }
	if( neg ) s=-s;
}
static void sincos( const Num& a, Num& s, Num& c )
{
	if( !a.f->D.empty() )
	{
		// opaque angle
		Poly k=a.f->N; // use a fresh atom keyed on numerator and denominator product
		Poly d=dProd(a.f->D);
		Poly key=padd(pmul(k,pconst(7919)),pmul(d,pconst(104729)));
		auto it=g_trigMemo.find(key);
		if( it==g_trigMemo.end() )
		{
			Var c_; c_.k=VK::Cos; c_.a1=a; c_.lo=-1; c_.hi=1; c_.name="cos"; int ci=newVar(c_);
			Var s_; s_.k=VK::Sin; s_.a1=a; s_.lo=-1; s_.hi=1; s_.name="sin"; s_.twin=ci; int si=newVar(s_);
			g_var[ci].twin=si;
			it=g_trigMemo.emplace(key,std::make_pair(ci,si)).first;
		}
		c=mk(pvar(it->second.first),{}); s=mk(pvar(it->second.second),{});
		return;
	}
	c=Num(1); s=Num(0);
	for( auto& e:a.f->N.t )
	{
		Num s1,c1;
		if( e.first.v.empty() ) { double k=e.second.get_d(); c1=snap(std::cos(k)); s1=snap(std::sin(k)); }
		else { Poly t; t.t[e.first]=e.second; sincosTerm(t,s1,c1); }
		Num nc=c*c1-s*s1, ns=s*c1+c*s1; c=nc; s=ns;
	}
}
Num nsin( const Num& a ) { if( a.isConst() ) return snap(std::sin(a.c)); Num s,c; sincos(a,s,c); return s; }
Num ncos( const Num& a ) { if( a.isConst() ) return snap(std::cos(a.c)); Num s,c; sincos(a,s,c); return c; }
static std::map<std::string,int> g_angMemo;
static Num angAtom( VK k, const Num& a, const Num& b, double lo, double hi )
{
	std::string key=std::to_string((int)k)+"|"+pstr(numOf(a))+"|"+pstr(dProd(denOf(a)))+"|"+pstr(numOf(b))+"|"+pstr(dProd(denOf(b)));
	auto it=g_angMemo.find(key);
	if( it!=g_angMemo.end() ) return mk(pvar(it->second),{});
	Var v; v.k=k; v.a1=a; v.a2=b; v.lo=lo; v.hi=hi; v.name="angle";
	int id=newVar(v); g_angMemo[key]=id;
	return mk(pvar(id),{});
}
Num nacos( const Num& a )
{
	if( a.isConst() ) return std::acos(a.c);
	if( decide(lt(Num(1),a)) || decide(lt(a,Num(-1))) ) return std::nan("");
	return angAtom(VK::Acos,a,Num(0),0,3.1415926535897936);
}
Num nasin( const Num& a )
{
	if( a.isConst() ) return std::asin(a.c);
	if( decide(lt(Num(1),a)) || decide(lt(a,Num(-1))) ) return std::nan("");
	return angAtom(VK::Asin,a,Num(0),-1.5707963267948968,1.5707963267948968);
}
Num natan( const Num& a )
{
	if( a.isConst() ) return std::atan(a.c);
	return angAtom(VK::Atan,a,Num(0),-1.5707963267948968,1.5707963267948968);
}
Num natan2( const Num& y, const Num& x )
{
	if( y.isConst() && x.isConst() ) return std::atan2(y.c,x.c);
	if( special(y)||special(x) ) return std::nan("");
	if( y.isConst() ? y.c==0 : evalQuick(eq(y,Num(0)))==1 )
	{
		if( decide(lt(x,Num(0))) ) return y.isConst() && std::signbit(y.c) ? Num(-3.141592653589793) : Num(3.141592653589793);
		return 0.;
	}
	if( x.isConst() ? x.c==0 : evalQuick(eq(x,Num(0)))==1 )
	{
		if( decide(lt(y,Num(0))) ) return -1.5707963267948966;
		if( decide(lt(Num(0),y)) ) return 1.5707963267948966;
		return x.isConst() && std::signbit(x.c) ? Num(3.141592653589793) : Num(0);
	}
	if( decide( And(eq(y,Num(0)),eq(x,Num(0))) ) ) return 0.;
	// constant direction: only the side remains to be known
	if( !y.isConst() && !x.isConst() )
	{
		Poly a=pmul(numOf(y),dProd(denOf(x))), b=pmul(numOf(x),dProd(denOf(y)));
		if( !a.t.empty() && a.t.size()==b.t.size() )
		{
			Q q=a.t.begin()->second/b.t.begin()->second; Poly r=pscale(b,-q);
			for( auto& e:a.t ) paddTo(r,e.first,e.second);
			if( r.t.empty() ) { double n=Q(q.get_num()).get_d(), d=Q(q.get_den()).get_d(); return decide(lt(x,Num(0))) ? std::atan2(-n,-d) : std::atan2(n,d); }
		}
	}
	const double pi=3.1415926535897936;
	// odd in y: one variable for both signs
	Poly n=numOf(y);
	if( !n.t.empty() && n.t.begin()->second<0 )
	{
		if( decide(eq(y,Num(0))) ) return decide(lt(x,Num(0))) ? Num(3.141592653589793) : Num(0);
		return -angAtom(VK::Atan2,-y,x,-pi,pi);
	}
	return angAtom(VK::Atan2,y,x,-pi,pi);
}
std::ostream& operator<<( std::ostream& o, const Num& a )
{
	if( a.isConst() ) return o<<a.c;
	return o << tok(a);
}
std::istream& operator>>( std::istream& i, Num& a ) { double d; i>>d; a=d; return i; }
std::string tok( const Num& a )
{
	if( a.isConst() ) { char b[64]; snprintf(b,sizeof b,"%.17g",a.c); return b; }
	P.tokNum.push_back(a);
	return std::to_string( 900000000 + (long)P.tokNum.size()-1 );
}
Num h2d_stod( const std::string& s )
{
	double d=std::stod(s);       // same exceptions as the original
	bool neg=d<0; double a=std::fabs(d);
	if( a>=900000000 && a<900000000+(double)P.tokNum.size() )
	{
		Num r=P.tokNum[(size_t)(a-900000000)];
		return neg? -r : r;
	}
	return d;
}

// ------------------------------------------------------------ harness side
void skip( const std::string& why ) { throw PathEnd{"skip:"+why}; }
void assume( Fm f )
{
	int q=evalQuick(f);
	if( q==1 ) return;
	if( q==0 ) throw PathEnd{"assume"};
	if( P.pos<P.prefix.size() ) { P.pos++; assertPC(f); return; }
	P.model.resize(g_var.size(),0.);
	int mv= P.modelValid ? evalModel(f,P.model) : -1;
	if( mv!=1 )
	{
		std::map<int,double> m;
		R r=query({f},&m);
		if( r==R::Unsat ) throw PathEnd{"assume"};
		if( r==R::Sat && !m.empty() ) { P.model=mergeModel(m); P.modelValid=true; }
		else P.modelValid=false;
	}
	P.prefix+='a'; P.pos=P.prefix.size();
	assertPC(f);
}
static Fm strengthen( const Fm& f, double eps )
{
	switch( f->k )
	{
		case FK::Lt: case FK::Le: { Poly p=f->p; paddTo(p,Mono(),toQ(eps)); return leaf(FK::Lt,p); }
		case FK::And: return And(strengthen(f->a,eps),strengthen(f->b,eps));
		case FK::Or: return Or(strengthen(f->a,eps),strengthen(f->b,eps));
		case FK::Not: return f;
		default: return f;
	}
}
static Fm negWeak( const Fm& f ) // not f, using the larger tolerances where there are some
{
	if( f->weak ) return Not(f->weak);
	switch( f->k )
	{
		case FK::And: return Or(negWeak(f->a),negWeak(f->b));
		case FK::Or: return And(negWeak(f->a),negWeak(f->b));
		case FK::Lt: case FK::Le: return strengthen(Not(f),1e-4);
		default: return Not(f);
	}
}
static Fm nnf( const Fm& f, bool neg=false )
{
	switch( f->k )
	{
		case FK::Not: return nnf(f->a,!neg);
		case FK::And: return neg? Or(nnf(f->a,true),nnf(f->b,true)) : And(nnf(f->a),nnf(f->b));
		case FK::Or: return neg? And(nnf(f->a,true),nnf(f->b,true)) : Or(nnf(f->a),nnf(f->b));
		case FK::Eq: if( neg ) return Or( leaf(FK::Lt,f->p), leaf(FK::Lt,pscale(f->p,-1)) ); return f;
		default: return neg? Not(f) : f;
	}
}
static void viol( const std::string& label, const std::vector<double>& m )
{
	fprintf(P.out,"V %s | %s\n",label.c_str(),modelStr(m).c_str());
}
void check( Fm f, const std::string& label )
{
	auto& r=P.checks[label];
	int q=evalQuick(f);
	if( q==1 ) { r.syn++; return; }
	P.model.resize(g_var.size(),0.);
	if( q==0 )
	{   // violated on the whole path: look for a model away from the branch boundaries
		r.viol++; viol(label,P.model);
		std::vector<Fm> ex; for( auto& e:P.pc ) ex.push_back(strengthen(nnf(e),1e-3));
		std::map<int,double> m;
		if( !ex.empty() && query(ex,&m,2.)==R::Sat && !m.empty() ) viol(label,mergeModel(m));
		return;
	}
	std::map<int,double> m;
	R a=query({Not(f)},&m,g_tq*2);
	if( a==R::Unsat ) { r.unsat++; return; }
	if( a==R::Sat )
	{
		r.viol++;
		if( !m.empty() ) viol(label,mergeModel(m));
		Fm nw=negWeak(f);
		m.clear();
		if( query({nw},&m,2.)==R::Sat && !m.empty() ) viol(label,mergeModel(m));
		std::vector<Fm> ex{nw}; for( auto& e:P.pc ) ex.push_back(strengthen(nnf(e),1e-3));
		m.clear();
		if( query(ex,&m,2.)==R::Sat && !m.empty() ) viol(label,mergeModel(m));
		return;
	}
	// unknown: restrict the query, input by input, to the values of the current path model
	if( P.modelValid )
	{
		std::set<int> vs; collectVars(f,vs); closeVars(vs);
		std::vector<int> ins; for( int v:vs ) if( g_var[v].k==VK::Input ) ins.push_back(v);
		for( size_t k=0; k<=ins.size() && k<8; k++ )
		{
			std::map<int,Q> fx;
			for( size_t j=0; j<ins.size(); j++ ) if( !(k<ins.size() && (j==k || j==(k+1)%ins.size())) ) fx[ins[j]]=toQ(std::round(P.model[ins[j]]*64)/64);
			m.clear();
			if( query({Not(f)},&m,1.,&fx)==R::Sat && !m.empty() ) { r.viol++; viol(label,mergeModel(m)); return; }
		}
	}
	r.inc++;
}
void fail( const std::string& label ) { check(F_FALSE,label); }
void observe( const std::string& name, const Num& n ) { P.obs.push_back({name,n}); }

// ============================================================ driver
static std::vector<std::pair<std::string,void(*)()>>& cases() { static std::vector<std::pair<std::string,void(*)()>> v; return v; }
CaseReg::CaseReg( const char* n, void(*f)() ) { cases().push_back({n,f}); }

static double g_pathLimit=60; static double g_pathStart; static long g_lastOps=-1; static int g_stall=0;
static void finishPath( const char* status, const std::string& msg )
{
	FILE* o=P.out;
	if( !o ) _exit(3);
	P.model.resize(g_var.size(),0.);
	for( auto& c:P.checks ) fprintf(o,"C %ld %ld %ld %ld %s\n",c.second.syn,c.second.unsat,c.second.viol,c.second.inc,c.first.c_str());
	if( !strcmp(status,"done") && P.modelValid )
	{
		std::string s;
		for( auto& e:P.obs ) { char b[64]; snprintf(b,sizeof b,"%.12g",evalN(std::get<1>(e),P.model)); s+=std::get<0>(e)+"="+b+" "; }
		fprintf(o,"M %s| %s\n",modelStr(P.model).c_str(),s.c_str());
	}
	fprintf(o,"S %ld %ld %ld %ld %ld %ld %ld %ld %.6f %zu %d\n",P.st.queries,P.st.sat,P.st.unsat,P.st.unk,P.st.quick,P.st.forks,P.st.byCvc,P.st.byAlt,P.st.tsolve,P.prefix.size(),(int)g_var.size());
	std::string m=msg; for( auto& c:m ) if( c=='\n' ) c=' ';
	fprintf(o,"E %s %s\n",status,m.c_str());
	fclose(o);
	P.out=nullptr;
	_exit(0);
}
static void onSig( int s )
{
	if( s==SIGALRM )
	{
		if( now()-g_pathStart>g_pathLimit ) finishPath("limit","path time limit");
		if( P.inSolver || P.ops!=g_lastOps ) { g_lastOps=P.ops; g_stall=0; return; }
		if( ++g_stall>=8 ) { P.model.resize(g_var.size(),0.); viol("terminates",P.model); finishPath("hang","no progress for 8 s"); }
		return;
	}
	signal(s,SIG_DFL);
	P.model.resize(g_var.size(),0.);
	viol("no-crash",P.model);
	finishPath("crash","signal "+std::to_string(s));
}
static void onExit() { if( P.out ) { viol("no-exit",P.model); finishPath("exit","std::exit called"); } }

struct Job { int cs; std::string prefix; std::map<std::string,double> model; };
static void parseModel( const std::string& s, std::map<std::string,double>& m )
{
	std::istringstream is(s); std::string t;
	while( is>>t ) { auto p=t.find('='); if( p!=std::string::npos ) m[t.substr(0,p)]=strtod(t.c_str()+p+1,nullptr); }
}
static void runPath( const Job& j, const std::string& file )
{
	P.prefix=j.prefix; P.inModel=j.model; P.pos=0;
	P.out=fopen(file.c_str(),"w");
	setvbuf(P.out,nullptr,_IOFBF,1<<20);
	g_pathStart=now();
	for( int s:{SIGSEGV,SIGABRT,SIGFPE,SIGBUS,SIGILL,SIGALRM} ) { struct sigaction sa{}; sa.sa_handler=onSig; sa.sa_flags=SA_NODEFER|(s==SIGALRM?SA_RESTART:0)|SA_ONSTACK; sigaction(s,&sa,nullptr); }
	stack_t ss{}; ss.ss_size=1<<18; ss.ss_sp=malloc(ss.ss_size); sigaltstack(&ss,nullptr);
	struct itimerval it{{1,0},{1,0}}; setitimer(ITIMER_REAL,&it,nullptr);
	atexit(onExit);
	try { cases()[j.cs].second(); finishPath("done",""); }
	catch( PathEnd& e ) { finishPath("end",e.why); }
	catch( Unsupported& e ) { finishPath("unsupported",e.msg); }
	catch( std::exception& e ) { P.model.resize(g_var.size(),0.); viol(std::string("no-unexpected-exception"),P.model); finishPath("exception",e.what()); }
	catch( ... ) { P.model.resize(g_var.size(),0.); viol("no-unexpected-exception",P.model); finishPath("exception","non-standard exception"); }
}
} // namespace symx

using namespace symx;
static std::string jesc( const std::string& s ) { std::string r; for( unsigned char c:s ) { if( c=='"'||c=='\\' ) { r+='\\'; r+=c; } else if( c<32 ) r+=' '; else r+=c; } return r; }

int main( int argc, char** argv )
{
	double budget=120; int jobs=8; std::string out="/dev/stdout"; std::string only; long maxPaths=1000000; std::string tmp="/tmp";
	for( int i=1; i<argc; i++ )
	{
		std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
		if( a=="--budget" ) budget=atof(nx().c_str());
		else if( a=="--jobs" ) jobs=atoi(nx().c_str());
		else if( a=="--out" ) out=nx();
		else if( a=="--case" ) only=nx();
		else if( a=="--tq" ) g_tq=atof(nx().c_str());
		else if( a=="--path-limit" ) g_pathLimit=atof(nx().c_str());
		else if( a=="--max-paths" ) maxPaths=atol(nx().c_str());
		else if( a=="--tmp" ) tmp=nx();
		else if( a=="--dump" ) g_dump=nx();
		else if( a=="--thorough" ) g_thorough=true;
		else if( a=="--list" ) { for( auto& c:cases() ) printf("%s\n",c.first.c_str()); return 0; }
	}
	signal(SIGPIPE,SIG_IGN);
	struct CS { long paths=0,done=0,ended=0,unsup=0,limit=0,hang=0,crash=0,exc=0; double cpu=0; std::map<std::string,CheckRec> checks; std::vector<std::pair<std::string,std::string>> viols; std::map<std::string,long> vcount; std::vector<std::string> samples; std::map<std::string,long> ends; std::deque<Job> q; Stats st; long steps=0; int maxvars=0; bool capped=false; };
	size_t nc=cases().size();
	std::vector<CS> cs(nc);
	for( size_t i=0; i<nc; i++ ) if( only.empty() || (","+only+",").find(","+cases()[i].first+",")!=std::string::npos ) cs[i].q.push_back(Job{(int)i,"",{}});
	struct Slot { pid_t pid=-1; Proc z3; int cs=-1; std::string file; double t0=0; };
	std::vector<Slot> slots(jobs);
	double t0=now();
	int running=0;
	auto finish=[&]( Slot& s )
	{
		CS& c=cs[s.cs]; c.cpu+=now()-s.t0;
		std::ifstream f(s.file); std::string l; bool ended=false;
		while( std::getline(f,l) )
		{
			if( l[0]=='P' )
			{
				std::istringstream is(l.substr(2)); Job j; j.cs=s.cs; is>>j.prefix; std::string rest; std::getline(is,rest); parseModel(rest,j.model);
				c.q.push_back(j);
			}
			else if( l[0]=='V' ) { auto p=l.find(" | "); std::string lab=l.substr(2,p-2); if( c.vcount[lab]++<60 ) c.viols.push_back({lab,l.substr(p+3)}); }
			else if( l[0]=='C' ) { std::istringstream is(l.substr(2)); CheckRec r; is>>r.syn>>r.unsat>>r.viol>>r.inc; std::string lab; std::getline(is,lab); lab=lab.substr(1); auto& k=c.checks[lab]; k.syn+=r.syn; k.unsat+=r.unsat; k.viol+=r.viol; k.inc+=r.inc; }
			else if( l[0]=='M' ) { if( c.samples.size()<400 ) c.samples.push_back(l.substr(2)); }
			else if( l[0]=='S' ) { std::istringstream is(l.substr(2)); Stats q; long st; int nv; is>>q.queries>>q.sat>>q.unsat>>q.unk>>q.quick>>q.forks>>q.byCvc>>q.byAlt>>q.tsolve>>st>>nv; c.st.queries+=q.queries; c.st.sat+=q.sat; c.st.unsat+=q.unsat; c.st.unk+=q.unk; c.st.quick+=q.quick; c.st.forks+=q.forks; c.st.byCvc+=q.byCvc; c.st.byAlt+=q.byAlt; c.st.tsolve+=q.tsolve; c.steps+=st; c.maxvars=std::max(c.maxvars,nv); }
			else if( l[0]=='E' ) { ended=true; std::istringstream is(l.substr(2)); std::string st,msg; is>>st; std::getline(is,msg); c.ends[st+msg.substr(0,160)]++; if( st=="done" ) c.done++; else if( st=="end" ) c.ended++; else if( st=="unsupported" ) c.unsup++; else if( st=="limit" ) c.limit++; else if( st=="hang" ) c.hang++; else if( st=="exception" ) c.exc++; else c.crash++; }
		}
		if( !ended ) { c.ends["lost"]++; c.limit++; }
		c.paths++;
		unlink(s.file.c_str());
	};
	std::vector<double> lastStart(nc,0);
	for(;;)
	{
		bool over= now()-t0>budget;
		for( auto& s:slots ) if( s.pid<0 && !over )
		{
			int best=-1; // the case with the least time spent so far
			for( size_t i=0; i<nc; i++ ) if( !cs[i].q.empty() && cs[i].paths<maxPaths && (best<0 || cs[i].cpu+lastStart[i]<cs[best].cpu+lastStart[best]) ) best=(int)i;
			if( best<0 ) break;
			Job j=cs[best].q.front(); cs[best].q.pop_front();
			s.cs=best; s.t0=now(); s.file=tmp+"/path."+std::to_string(getpid())+"."+std::to_string(&s-&slots[0]);
			lastStart[best]+=0.05;
			if( s.z3.pid>0 ) { int st; if( waitpid(s.z3.pid,&st,WNOHANG)==s.z3.pid ) { s.z3.pid=-1; s.z3.stop(); } }
			if( s.z3.pid<=0 ) s.z3.start({g_z3bin,"-in"});
			pid_t p=fork();
			if( p==0 )
			{
				prctl(PR_SET_PDEATHSIG,SIGKILL);
				int n=open("/dev/null",O_WRONLY); dup2(n,1); if( !getenv("SYMX_DEBUG") && !getenv("SYMX_SLOW") ) dup2(n,2);
				g_z3=s.z3; g_z3.buf.clear();
				runPath(j,s.file); _exit(0);
			}
			s.pid=p; running++;
		}
		if( running==0 ) break;
		bool any=false;
		for( auto& s:slots ) if( s.pid>0 )
		{
			int st; pid_t r=waitpid(s.pid,&st,WNOHANG);
			double lim=g_pathLimit+25;
			if( r==0 && (now()-s.t0>lim || (over && now()-t0>budget+15)) ) { kill(s.pid,SIGKILL); waitpid(s.pid,&st,0); r=s.pid; if( s.z3.pid>0 ) s.z3.stop(); }
			if( r==s.pid )
			{
				finish(s); s.pid=-1; running--; any=true;
				// the solver may have been killed/replaced by the path: probe it
				if( s.z3.pid>0 )
				{
					std::string o; s.z3.buf.clear();
					if( kill(s.z3.pid,0)!=0 || !s.z3.send("(reset)\n(echo \"@@r\")\n") || !s.z3.recvUntil("@@r\n",1.,o) ) s.z3.stop();
				}
			}
		}
		if( !any ) usleep(500);
	}
	for( auto& s:slots ) if( s.z3.pid>0 ) s.z3.stop();
	std::ofstream o(out);
	o<<"{\"wall\":"<<now()-t0<<",\"cases\":[";
	bool first=true;
	for( size_t i=0; i<nc; i++ )
	{
		auto& c=cs[i]; if( c.paths==0 && c.q.empty() ) continue;
		if( !first ) o<<",\n"; first=false;
		o<<"{\"name\":\""<<cases()[i].first<<"\",\"paths\":"<<c.paths<<",\"done\":"<<c.done<<",\"ended\":"<<c.ended<<",\"unsupported\":"<<c.unsup<<",\"limit\":"<<c.limit<<",\"hang\":"<<c.hang<<",\"crash\":"<<c.crash<<",\"exception\":"<<c.exc<<",\"left\":"<<c.q.size()<<",\"cpu\":"<<c.cpu<<",\"decisions\":"<<c.steps<<",\"maxvars\":"<<c.maxvars
		 <<",\"queries\":"<<c.st.queries<<",\"sat\":"<<c.st.sat<<",\"unsat\":"<<c.st.unsat<<",\"unknown\":"<<c.st.unk<<",\"quick\":"<<c.st.quick<<",\"forks\":"<<c.st.forks<<",\"by_cvc5\":"<<c.st.byCvc<<",\"by_alt\":"<<c.st.byAlt<<",\"tsolve\":"<<c.st.tsolve;
		o<<",\"checks\":{"; bool f2=true; for( auto& k:c.checks ) { if( !f2 ) o<<","; f2=false; o<<"\""<<jesc(k.first)<<"\":["<<k.second.syn<<","<<k.second.unsat<<","<<k.second.viol<<","<<k.second.inc<<"]"; }
		o<<"},\"ends\":{"; f2=true; for( auto& k:c.ends ) { if( !f2 ) o<<","; f2=false; o<<"\""<<jesc(k.first)<<"\":"<<k.second; }
		o<<"},\"violations\":["; f2=true; for( auto& k:c.viols ) { if( !f2 ) o<<","; f2=false; o<<"[\""<<jesc(k.first)<<"\",\""<<jesc(k.second)<<"\"]"; }
		o<<"],\"samples\":["; f2=true; for( auto& k:c.samples ) { if( !f2 ) o<<","; f2=false; o<<"\""<<jesc(k)<<"\""; }
		o<<"]}";
	}
	o<<"]}\n";
	return 0;
}
