#include "hlib.hpp"
CASE(ctor_matrix)
{
	M3 m; for(int i=0;i<9;i++) if( i!=8 ) m[i/3][i%3]=in("m"+std::to_string(i),-5,5);
	m[2][2]=in("m8",-5,5); away(m[2][2],0.05); int s=choose("s",2);
	std::vector<std::vector<Num>> v(3,std::vector<Num>(3)); for(int i=0;i<9;i++) v[i/3][i%3]=m[i/3][i%3];
	Homogr h= s? Homogr(v): Homogr(m);
	M3 r=raw(h);
	check( near(r[2][2],1), "normalised" );
	std::vector<Fm> f; for(int i=0;i<9;i++) f.push_back( near( r[i/3][i%3]*m[2][2], m[i/3][i%3] ) );
	check( all(f), "proportional" );
	check( h.isNormalized(), "flag" );
}
CASE(ctor_rejects)
{
	Num a=in("a",-5,5); int s=choose("s",3);
	std::vector<std::vector<Num>> v(3,std::vector<Num>(3,a));
	if( s==0 ) v.pop_back(); else if( s==1 ) v[1].push_back(a); else v[2][2]=0;
	check( throws([&]{ Homogr h(v); }), "bad-shape-rejected" );
}
CASE(compose_affine)
{
	M3 a=baseMat(1), b=baseMat(0);
	int n=0; for(int i=0;i<2;i++) for(int j=0;j<3;j++) { b[i][j]=in("b"+std::to_string(n),-3,3); n++; }
	Num x=in("x",-5,5), y=in("y",-5,5); int o=choose("o",2);
	Homogr A(a), B(b);
	Homogr C= o? A*B : B*A;
	Point2d p(x,y), q=C*p;
	M3 m= o? mul3(a,b): mul3(b,a);
	check( isImage(q,m,x,y), "product-matrix" );
	Point2d r= o? A*(B*p) : B*(A*p);
	check( nearpt(q,r,1e-5), "one-after-the-other" );
	check( C.isNormalized(), "normalised" );
	obs("q",q);
}
CASE(compose_projective)
{
	int k=choose("k",3); M3 a=baseMat(k==0?0:k==1?4:5), b=baseMat(4);
	int f=choose("f",3); Num s=in("s",-1,1), t=in("t",-1,1);
	if( f==0 ) { b[2][0]=s/8; b[2][1]=t/8; } else if( f==1 ) { b[0][0]=s; b[1][2]=t; } else { b[0][1]=s; b[2][0]=t/8; }
	Num x=in("x",-3,3), y=in("y",-3,3);
	auto w=img3(b,x,y); away(w[2],0.1);
	M3 m=mul3(a,b); away(m[2][2],0.05);
	auto w2=img3(m,x,y); away(w2[2],0.1);
	Homogr A(a), B(b), C=A*B; Point2d p(x,y);
	check( isImage(C*p,m,x,y), "product" );
	check( isImage(A*(B*p),m,x,y,1e-4), "sequence" );
}
CASE(inverse_affine)
{
	M3 a=baseMat(1); int f=choose("f",3); Num s=in("s",-3,3), t=in("t",-3,3), u=in("u",-3,3);
	if( f==0 ) { a[0][0]=s; a[0][1]=t; a[0][2]=u; } else if( f==1 ) { a[1][0]=s; a[1][1]=t; a[0][1]=u; } else { a[0][0]=s; a[1][1]=t; a[1][2]=u; }
	Num d=det3(a); away(d,0.05);
	Homogr H(a), I(a);
	I.inverse();
	M3 p=mul3(raw(H),raw(I));
	check( nearMat(p,baseMat(0),1e-5), "right-inverse" );
	check( nearMat(mul3(raw(I),raw(H)),baseMat(0),1e-5), "left-inverse" );
	Num x=in("x",-5,5), y=in("y",-5,5);
	Point2d q=I*(H*Point2d(x,y));
	check( nearpt(q,x,y,1e-5), "undoes" );
	I.inverse();
	check( nearMat(raw(I),raw(H),1e-5), "involution" );
	check( near( H.determ(), d ), "determinant" );
}
CASE(inverse_projective)
{
	M3 a=baseMat(4); int f=choose("f",4); Num s=in("s",-2,2), t=in("t",-2,2);
	if( f==0 ) { a[2][0]=s/8; a[2][1]=t/8; } else if( f==1 ) { a[0][0]=s; a[1][2]=t; } else if( f==2 ) { a[0][1]=s; a[2][0]=t/8; } else { a[1][0]=s; a[1][1]=t; }
	Num d=det3(a); away(d,0.05); away( a[0][0]*a[1][1]-a[0][1]*a[1][0], 0.05 );
	Homogr H(a), I(a);
	I.inverse();
	M3 p=mul3(raw(H),raw(I));
	check( sameScale(p,baseMat(0),1e-5), "right-inverse" );
	check( sameScale(mul3(raw(I),raw(H)),baseMat(0),1e-5), "left-inverse" );
	check( near( H.determ(), d/(a[2][2]*a[2][2]*a[2][2]) ), "determinant" );
	check( near( raw(I)[2][2], 1 ), "normalised" );
}
CASE(non_invertible)
{
	// third line a combination of the others; or two proportional columns
	Num s=in("s",-3,3), t=in("t",-3,3); int f=choose("f",3);
	M3 a=baseMat(1);
	if( f==0 ) for(int j=0;j<3;j++) a[0][j]=a[1][j]*s;
	else if( f==1 ) for(int i=0;i<3;i++) a[i][0]=a[i][1]*s+ (i<2? Num(0):Num(0));
	else for(int j=0;j<3;j++) a[1][j]=a[0][j]*s+a[2][j]*t;
	Homogr H(a);
	check( throws([&]{ H.inverse(); }), "singular-rejected" );
	check( throws([&]{ Homogr G(a); Line2d l=G*Line2d(1,2,3); }), "singular-rejected-on-line" );
}
CASE(transpose)
{
	M3 m=baseMat(5); Num s=in("s",-3,3), t=in("t",-3,3), u=in("u",-3,3); m[0][1]=s; m[1][2]=t; m[2][0]=u;
	Homogr H(m); M3 r=raw(H);
	H.transpose(); M3 q=raw(H);
	std::vector<Fm> v; for(int i=0;i<9;i++) v.push_back( near( q[i/3][i%3], r[i%3][i/3] ) );
	check( all(v), "transposed" );
	H.transpose();
	check( nearMat(raw(H),r), "involution" );
}
CASE(equality)
{
	int k=choose("k",6), pos=choose("pos",8), w=choose("w",3);
	M3 m=baseMat(k); Num d=in("d",-1,1), sc=in("sc",-3,3); away(sc,0.05);
	M3 n=m; n[pos/3][pos%3]+=d;
	for( auto& l:n ) for( auto& e:l ) e=e*sc;
	Homogr A(m), B;
	if( w==0 ) B=Homogr(n); else if( w==1 ) { for(int i=0;i<9;i++) B.set(i/3,i%3,n[i/3][i%3]); }
	else { for(int i=0;i<9;i++) B.value(i/3,i%3)=n[i/3][i%3]; }
	bool e=A==B;
	check( e==(B==A), "symmetric" );
	check( (A!=B)!=e, "negation" );
	check( Imp( eq(d,0), T(e) ), "same-up-to-scale-is-equal" );
	check( Imp( absge(d,1e-4), T(!e) ), "different-is-not-equal" );
	check( A==A, "reflexive" );
}
CASE(assign_equal)
{
	// an assigned copy is equal to its source, whatever its own history
	Num s=in("s",-3,3), t=in("t",0.1,3); int w=choose("w",3);
	Homogr A; A.set(0,0,s); A.set(2,2,t); A.set(1,2,s*2);
	Homogr B; if( w==1 ) B.setTranslation(1,2); if( w==2 ) { B.set(2,2,5); }
	B=A;
	check( nearMat(raw(B),raw(A)), "assigned-values" );
	check( A==B, "assigned-is-equal" );
	Homogr C(A);
	check( C==A, "copied-is-equal" );
	check( C==B, "copies-equal" );
}
static const int NOP=14;
static void modify( int op, Homogr& h, M3& m, const Num& s )
{
	M3 e=baseMat(0);
	switch( op )
	{
		case 0: h.set(0,2,s); m[0][2]=s; break;
		case 1: h.value(1,0)=s; m[1][0]=s; break;
		case 2: h=Homogr( baseMat(1) ); m=baseMat(1); break;
		case 3: h.addTranslation( s, Num(2) ); e[0][2]=s; e[1][2]=2; m=mul3(e,m); break;
		case 4: h.addScale( 2, 3 ); e[0][0]=2; e[1][1]=3; m=mul3(e,m); break;
		case 5: h.setTranslation( s, 1 ); m=e; m[0][2]=s; m[1][2]=1; break;
		case 6: h.setScale( 2 ); m=e; m[0][0]=m[1][1]=2; break;
		case 7: h.init(); m=e; break;
		case 8: h=Homogr( baseMat(2) )*h; m=mul3( baseMat(2), m ); break;
		case 9: h.addRotation( M_PI/2 ); e[0][0]=e[1][1]=0; e[0][1]=-1; e[1][0]=1; m=mul3(e,m); break;
		case 10: h.setRotation( M_PI/2 ); m=e; m[0][0]=m[1][1]=0; m[0][1]=-1; m[1][0]=1; break;
		case 11: { h.getRaw()[1][2]=s; m[1][2]=s; } break;
		case 12: { Homogr g; g.set(1,1,s+5); h=g; m=e; m[1][1]=s+5; } break;
		case 13: h.addScale( 2 ); e[0][0]=e[1][1]=2; m=mul3(e,m); break;
	}
}
static void useAll( const Homogr& h, const M3& m, const std::string& w )
{
	Point2d p(3,-2);
	check( isImage( h*p, m, 3, -2 ), w+"-point" );
	Line2d l( Point2d(3,-2), Point2d(1,5) );
	Line2d r=h*l;
	auto a=img3(m,3,-2), b=img3(m,1,5); auto v=r.get();
	check( And( near( v[0]*a[0]+v[1]*a[1]+v[2]*a[2],0,1e-5 ), near( v[0]*b[0]+v[1]*b[1]+v[2]*b[2],0,1e-5 ) ), w+"-line" );
}
CASE(history)
{
	// use, modify, use, modify, use
	Num s=in("s",-3,3); int k=choose("k",3);
	M3 m=baseMat(k==2?4:k); Homogr h(m);
	int a=choose("a",NOP), b=choose("b",NOP);
	useAll(h,m,"first");
	modify(a,h,m,s);
	away( det3(m), 0.05 );
	if( choose("mid",2) ) useAll(h,m,"second");
	modify(b,h,m,s+1);
	away( det3(m), 0.05 );
	useAll(h,m,"third");
	Homogr c(h); useAll(c,m,"copy");
	Homogr g( baseMat(1) ); useAll(g,baseMat(1),"other"); g=h; useAll(g,m,"assigned");
}
CASE(history_inverse)
{
	Num s=in("s",-3,3); int a=choose("a",NOP), w=choose("w",3);
	M3 m=baseMat(2); Homogr h(m);
	Line2d l0=h*Line2d(1,2,3); (void)l0;
	modify(a,h,m,s);
	away( det3(m), 0.05 ); away( m[0][0]*m[1][1]-m[0][1]*m[1][0], 0.05 );
	if( w==0 )
	{
		h.inverse();
		Point2d p=h*Point2d(3,-2);
		auto b=img3(m,p.getX(),p.getY());
		check( And( near( b[0],3*b[2],1e-4 ), near( b[1],-2*b[2],1e-4 ) ), "inverse-point" );
		// the line (1,1,1) seen through m
		Line2d r=h*Line2d(1,1,1); auto v=r.get();
		std::array<Num,3> e{ m[0][0]+m[1][0]+m[2][0], m[0][1]+m[1][1]+m[2][1], m[0][2]+m[1][2]+m[2][2] };
		check( And( near( v[0]*e[1],v[1]*e[0],1e-4 ), near( v[0]*e[2],v[2]*e[0],1e-4 ), near( v[1]*e[2],v[2]*e[1],1e-4 ) ), "inverse-line" );
	}
	else if( w==1 )
	{
		h.transpose();
		M3 t=m; for(int i=0;i<9;i++) t[i/3][i%3]=m[i%3][i/3];
		away( img3(t,3,-2)[2], 0.05 ); away( img3(t,1,5)[2], 0.05 );
		useAll(h,t,"transposed");
	}
	else { Homogr g; g=h; h.set(0,0,s+7); useAll(g,m,"assigned-independent"); Homogr q(g); g.setScale(3); useAll(q,m,"copied-independent"); }
}
// the same transformation obtained by a product and given by its (scaled) matrix
CASE(product_equal)
{
	int k=choose("k",6), j=choose("j",6), w=choose("w",4); Num s=in("s",-2,2), sc=in("sc",-3,3), d=in("d",-1,1); away(sc,0.05);
	M3 a=baseMat(k), b=baseMat(j); a[0][2]=s; M3 m=mul3(a,b); away( m[2][2], 0.05 ); M3 n=m; for( auto& l:n ) for( auto& e:l ) e=e*sc;
	Homogr A(a), B(b), P=A*B; if( w==1 ) { P=B; P=A*P; } if( w==2 ) { Homogr I; P=A*I*B; } if( w==3 ) { Homogr Q(B); Q.set(0,0,b[0][0]/b[2][2]); P=A*Q; }
	Homogr N(n); check( P==N && N==P && !(P!=N), "equal" ); check( near( raw(P)[2][2], 1 ), "normalised" );
	n[1][2]=n[1][2]+d*sc*m[2][2]; Homogr D(n); check( Imp( absge(d,1e-4), T( !(P==D) && D!=P ) ), "different" );
}
// the transformation of lines uses the inverse: none may be left from before a change
CASE(changed_after_use)
{
	int e=choose("e",9), w=choose("w",4), b=choose("b",3); Num s=in("s",-3,3);
	M3 m=baseMat(b==2?5:b==1?3:2); Homogr h(m); m=raw(h); // as stored, that is normalised
	Line2d l0=h*Line2d(Point2d(1,2),Point2d(-1,3)); (void)l0;
	if( w==0 ) { h.set(e/3,e%3,s); m[e/3][e%3]=s; }
	else if( w==1 ) { h.value(e/3,e%3)=s; m[e/3][e%3]=s; }
	else if( w==2 ) { if( e>0 ) return; h.transpose(); M3 t=m; for(int i=0;i<9;i++) t[i/3][i%3]=m[i%3][i/3]; m=t; }
	else { if( e>0 ) return; h.inverse(); Line2d l1=h*Line2d(Point2d(1,2),Point2d(-1,3)); (void)l1; h.inverse(); }
	if( w<2 ) away( m[2][2], 0.05 );
	away( det3(m), 0.05 );
	auto P=img3(m,3,-2), Q=img3(m,1,5); away(P[2],0.05); away(Q[2],0.05);
	Point2d p(3,-2), q(1,5), hp=h*p, hq=h*q;
	check( And( near(hp.getX()*P[2],P[0],1e-4), near(hp.getY()*P[2],P[1],1e-4) ), "point" );
	check( And( near(hq.getX()*Q[2],Q[0],1e-4), near(hq.getY()*Q[2],Q[1],1e-4) ), "point-2" );
	// a line that is symbolic through both would only repeat the points: the image of the line holds both images
	Num n0=P[1]*Q[2]-P[2]*Q[1], n1=P[2]*Q[0]-P[0]*Q[2]; assume( ge(n0*n0+n1*n1,1e-3) );
	Line2d l; bool th=throws([&]{ l=h*Line2d(p,q); }); check( !th, "no-throw" ); if( th ) return; auto v=l.get();
	check( And( near( v[0]*P[0]+v[1]*P[1]+v[2]*P[2], 0, 1e-4 ), near( v[0]*Q[0]+v[1]*Q[1]+v[2]*Q[2], 0, 1e-4 ) ), "line" );
	check( near( v[0]*v[0]+v[1]*v[1], 1 ), "line-normalised" );
}
