#include "hlib.hpp"
// affine family with 3 symbolic entries / projective family with 2
static M3 family( int k, int f, const Num& s, const Num& t )
{
	M3 m=baseMat(k);
	if( f==0 ) { m[0][0]=s; m[1][2]=t; } else if( f==1 ) { m[0][1]=s; m[1][0]=t; } else if( f==2 ) { m[2][0]=s/16; m[2][1]=t/16; } else { m[1][1]=s; m[2][0]=t/16; }
	return m;
}
static const int KB[3]={1,3,4};
CASE(incidence)
{
	int k=KB[choose("k",3)], f=choose("f",4); Num s=in("s",-2,2), t=in("t",-2,2);
	M3 m=family(k,f,s,t); away(det3(m),0.05); away( m[0][0]*m[1][1]-m[0][1]*m[1][0], 0.05 );
	int d=choose("d",4); Dir u=dirOf(d); Num q=in("q",-3,3);
	Line2d l( 1,2, 1+u.x,2+u.y );
	auto w=img3(m,1+q*u.x,2+q*u.y); away(w[2],0.1);
	Homogr H(m);
	Line2d r=H*l;
	Point2d p=H*Point2d(1+q*u.x,2+q*u.y);
	auto v=r.get();
	check( near( v[0]*w[0]+v[1]*w[1]+v[2]*w[2],0,1e-4 ), "image-point-on-image-line" );
	check( near( v[0]*v[0]+v[1]*v[1],1 ), "normalised" );
	check( isImage(p,m,1+q*u.x,2+q*u.y), "point" );
}
CASE(line_symbolic)
{
	int k=choose("k",3); Num a=in("a",-3,3), b=in("b",-3,3), c= k==2 ? Num(0.75) : in("c",-3,3);
	M3 m=baseMat(KB[k]); Homogr H(m);
	assume( ge(a*a+b*b,0.01) );
	if( k==2 ) away( a*m[2][1]-b*m[2][0], 0.02 ); // not parallel to the line sent to infinity
	Line2d l(a,b,c);
	Line2d r; bool th=throws([&]{ r=H*l; });
	check( !th, "no-throw" ); if( th ) return;
	auto v=r.get();
	// pull back: m^T v proportional to (a,b,c)
	Num p0=m[0][0]*v[0]+m[1][0]*v[1]+m[2][0]*v[2], p1=m[0][1]*v[0]+m[1][1]*v[1]+m[2][1]*v[2], p2=m[0][2]*v[0]+m[1][2]*v[1]+m[2][2]*v[2];
	check( And( near(p0*b,p1*a,1e-4), near(p0*c,p2*a,1e-4), near(p1*c,p2*b,1e-4) ), "pull-back" );
}
CASE(noaffine_upper_left_singular)
{
	// invertible transformation whose upper-left 2x2 part is singular
	Num s=in("s",0.5,3), q=in("q",-3,3);
	M3 m=baseMat(0); m[0][0]=1; m[0][1]=2; m[1][0]=2; m[1][1]=4; m[0][2]=s; m[1][2]=1; m[2][0]=1; m[2][1]=-1; m[2][2]=1;
	away(det3(m),0.1);
	Homogr H(m); Line2d l(1,2,3);
	Line2d r=H*l; auto v=r.get();
	Num x=q, y=(-3-q)/2; auto w=img3(m,x,y);
	check( near( v[0]*w[0]+v[1]*w[1]+v[2]*w[2],0,1e-4 ), "image-point-on-image-line" );
}
CASE(point_symbolic)
{
	int k=choose("k",6), g=choose("g",2); Num x=in("x",-5,5), y=in("y",-5,5), w=in("w",-3,3);
	if( !g ) w=1;
	away(w,0.1);
	M3 m=baseMat(k); auto h=img3(m,x,y); away(h[2],0.1);
	Homogr H(m); Point2d p=H*Point2d(x*w,y*w,w);
	check( isImage(p,m,x,y), "image" );
	obs("p",p);
}
CASE(segment)
{
	int k=KB[choose("k",3)], o=choose("o",2); Num x=in("x",-5,5), y=in("y",-5,5);
	M3 m=baseMat(k); auto h=img3(m,x,y); away(h[2],0.1); away(x-1,0.1);
	Homogr H(m); Point2d p(x,y), q(1,2);
	Point2d ip=H*p, iq=H*q;
	if( ip==iq ) skip("merged");
	if( o==0 )
	{
		Segment s(p,q), r=H*s;
		check( r==Segment(ip,iq), "segment" );
		auto pr=r.getPts();
		check( Or( And( nearpt(pr.first,ip), nearpt(pr.second,iq) ), And( nearpt(pr.first,iq), nearpt(pr.second,ip) ) ), "segment-ends" );
		check( !(pr.second<pr.first), "ordered" );
	}
	else
	{
		OSegment s(p,q); auto r=H*s;
		auto pr=r.getPts();
		check( And( nearpt(pr.first,ip), nearpt(pr.second,iq) ), "osegment-keeps-orientation" );
	}
}
CASE(polyline)
{
	int k=KB[choose("k",3)], o=choose("o",2); Num x=in("x",-5,5), y=in("y",-5,5);
	M3 m=baseMat(k); auto h=img3(m,x,y); away(h[2],0.1); away(y-1,0.1); away(y-2,0.1);
	Homogr H(m); std::vector<Point2d> v{ {0,1}, {3,2}, {x,y} };
	std::vector<Point2d> r;
	if( o ) r=(H*CPolyline(v)).getPts(); else r=(H*OPolyline(v)).getPts();
	check( r.size()==3, "size" );
	// the same cycle (closed polylines may start elsewhere), same order for open ones
	std::vector<Fm> alt;
	for( int s=0; s<(o?3:1); s++ ) { std::vector<Fm> f; for( int i=0;i<3;i++ ) f.push_back( isImage( r[(i+s)%3], m, v[i].getX(), v[i].getY() ) ); alt.push_back( all(f) ); }
	check( any(alt), "points" );
}
CASE(rect)
{
	int k=KB[choose("k",3)]; Num x=in("x",0.1,5), y=in("y",0.1,5);
	M3 m=baseMat(k); auto h=img3(m,1+x,1+y), h2=img3(m,1+x,1), h3=img3(m,1,1+y); away(h[2],0.1); away(h2[2],0.1); away(h3[2],0.1);
	Homogr H(m); FRect r( 1,1, 1+x,1+y );
	CPolyline p=H*r;
	auto c=r.get4Pts(); auto v=p.getPts();
	check( v.size()==4, "size" );
	std::vector<Fm> alt;
	for( int s=0; s<4; s++ ) { std::vector<Fm> f; for( int i=0;i<4;i++ ) f.push_back( isImage( v[(i+s)%4], m, c[i].getX(), c[i].getY() ) ); alt.push_back( all(f) ); }
	check( any(alt), "corners" );
}
CASE(containers)
{
	int k=choose("k",5); Num x=in("x",-5,5), y=in("y",-5,5);
	M3 m=baseMat(k); auto h=img3(m,x,y); away(h[2],0.1);
	const Homogr H(m);
	std::vector<Point2d> v{ {1,2}, {x,y}, {0,-1} };
	auto a=H*v;
	check( a.size()==3, "vector-size" );
	std::vector<Point2d> b=v; H.applyTo(b);
	std::array<Point2d,3> ar{ v[0],v[1],v[2] }; auto c=H*ar;
	std::list<Point2d> li( v.begin(), v.end() ); auto d=H*li; H.applyTo(li);
	check( d.size()==3, "list-size" );
	auto it=d.begin(); auto it2=li.begin();
	for( int i=0;i<3;i++ )
	{
		Fm f=And( isImage(a[i],m,v[i].getX(),v[i].getY()), isImage(b[i],m,v[i].getX(),v[i].getY()), isImage(c[i],m,v[i].getX(),v[i].getY()), isImage(*it,m,v[i].getX(),v[i].getY()) );
		check( f, "elements-"+std::to_string(i) );
		check( isImage(*it2,m,v[i].getX(),v[i].getY()), "applyTo-list" );
		++it; ++it2;
	}
	std::vector<Line2d> vl{ Line2d(1,2,x), Line2d(1,0,0) };
	auto rl=H*vl; Line2d l0=H*vl[0], l1=H*vl[1];
	auto g0=rl[0].get(), g1=rl[1].get(), e0=l0.get(), e1=l1.get();
	for( int i=0;i<3;i++ ) check( And( near(g0[i],e0[i]), near(g1[i],e1[i]) ), "lines" );
}
CASE(reuse)
{
	// same object used for several lines and objects, then copied, assigned to, moved on
	Num s=in("s",-2,2), c=in("c",-3,3); int k=choose("k",3);
	M3 m=baseMat(KB[k]); m[0][2]=s; away(det3(m),0.05); away( m[0][0]*m[1][1]-m[0][1]*m[1][0], 0.05 );
	Homogr H(m);
	auto on=[&]( const Homogr& h, const M3& mm, const char* w )
	{
		Line2d l( 1, -1, c );   // y = x + c
		Line2d r=h*l; auto v=r.get(); auto a=img3(mm,0,c), b=img3(mm,1,1+c);
		check( And( near( v[0]*a[0]+v[1]*a[1]+v[2]*a[2],0,1e-4 ), near( v[0]*b[0]+v[1]*b[1]+v[2]*b[2],0,1e-4 ) ), w );
	};
	on(H,m,"first"); on(H,m,"second");
	Homogr G(H); on(G,m,"copy");
	Homogr K; on(K,baseMat(0),"identity"); K=H; on(K,m,"assigned");
	H.setTranslation(5,6); M3 t=baseMat(0); t[0][2]=5; t[1][2]=6;
	on(H,t,"changed"); on(K,m,"assigned-unchanged"); on(G,m,"copy-unchanged");
	K=K*H; on(K,mul3(m,t),"composed");
	H=H; on(H,t,"self");
	if( k<2 ) { G.inverse(); G.inverse(); on(G,m,"twice-inverted"); }
}
CASE(preserves_parallelism)
{
	int k=choose("k",3), f=choose("f",2); static const int kb[3]={1,2,3}; Num s=in("s",-2,2), t=in("t",-2,2), c=in("c",-3,3);
	M3 m=family(kb[k],f,s,t); away(det3(m),0.1);
	Homogr H(m); int d=choose("d",4); Dir u=dirOf(d);
	Line2d a=H*Line2d(-u.y,u.x,c), b=H*Line2d(-u.y,u.x,c+1);
	auto v=a.get(), w=b.get();
	check( near( v[0]*w[1],v[1]*w[0],1e-5 ), "affine-keeps-parallelism" );
}
// any change made after the matrix has been used on a line (which keeps an inverse)
CASE(changed_then_line)
{
	int op=choose("op",17), b=choose("b",3), sp=choose("special",2); Num s= sp? Num(op==4||op==5||op==6? 1:0) : in("s",0.3,2.5), c=in("c",-3,3);
	M3 m=baseMat(b==2?4:b); Homogr h(m); Line2d before=h*Line2d(Point2d(1,2),Point2d(-1,3)); (void)before; m=raw(h); M3 e=baseMat(0);
	auto tr=[&]{ e[0][2]=s; e[1][2]=2*s; }; auto ro=[&]{ if( sp ) return; e[0][0]=e[1][1]=0; e[0][1]=-1; e[1][0]=1; }; auto sc=[&]( const Num& u, const Num& v ) { e[0][0]=u; e[1][1]=v; }; Num A=sp?Num(0):Num(M_PI/2);
	switch( op )
	{
		case 0: h.setTranslation(s,2*s); tr(); m=e; break;
		case 1: h.addTranslation(s,2*s); tr(); m=mul3(e,m); break;
		case 2: h.setRotation(A); ro(); m=e; break;
		case 3: h.addRotation(A); ro(); m=mul3(e,m); break;
		case 4: h.setScale(s,3*s); sc(s,3*s); m=e; break;
		case 5: h.addScale(s,3*s); sc(s,3*s); m=mul3(e,m); break;
		case 6: h.addScale(s); sc(s,s); m=mul3(e,m); break;
		case 7: h.setScale(s); if( sp ) return; sc(s,s); m=e; break;
		case 8: h.set(0,2,s); m[0][2]=s; break;
		case 9: h.value(0,0)=s; m[0][0]=s; break;
		case 10: h.value(1,1)=s; m[1][1]=s; break;
		case 11: h.getRaw()[0][1]=s; m[0][1]=s; break;
		case 12: { if( sp ) return; h.transpose(); M3 t=m; for( int i=0;i<9;i++ ) t[i/3][i%3]=m[i%3][i/3]; m=t; break; }
		case 13: h.init(); m=e; break;
		case 14: { tr(); Homogr g(s,2*s); h=g; m=e; break; }
		case 15: { tr(); Homogr g(s,2*s); Line2d u=g*Line2d(1,2,3); (void)u; h=g; m=e; break; }
		default: { tr(); Homogr g(s,2*s); h=h*g; m=mul3(m,e); }
	}
	away(det3(m),0.05); Line2d l( Num(1), Num(-1), c ), r; auto P=img3(m,0,c), Q=img3(m,2,2+c); Num n0=P[1]*Q[2]-P[2]*Q[1], n1=P[2]*Q[0]-P[0]*Q[2]; assume( ge(n0*n0+n1*n1,1e-2) );
	r=h*l; auto v=r.get(); check( And( near( v[0]*P[0]+v[1]*P[1]+v[2]*P[2],0,1e-4 ), near( v[0]*Q[0]+v[1]*Q[1]+v[2]*Q[2],0,1e-4 ) ), "line" );
}
// an open polyline that comes back to its first point, several points with the same image as others
CASE(polyline_back)
{
	Num x=in("x",-5,5), y=in("y",-5,5); int k=KB[choose("k",3)]; M3 m=baseMat(k); auto h=img3(m,x,y); away(h[2],0.1); away(y-1,0.1); away(y-2,0.1); std::vector<Point2d> v{ {0,1}, {3,2}, {x,y}, {0,1}, {3,2} }; auto r=(Homogr(m)*OPolyline(v)).getPts();
	check( r.size()==5, "size" ); if( r.size()!=5 ) return; std::vector<Fm> f; for( int i=0;i<5;i++ ) f.push_back( isImage( r[i], m, v[i].getX(), v[i].getY() ) ); check( all(f), "points" );
}
