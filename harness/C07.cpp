#include "hlib.hpp"
CASE(translation)
{
	Num x=in("x",-10,10), y=in("y",-10,10), dx=in("dx",-10,10), dy=in("dy",-10,10); int s=choose("s",4);
	Homogr h; 
	if( s==0 ) h.setTranslation(dx,dy); else if( s==1 ) h.addTranslation(dx,dy); else if( s==2 ) h=Homogr(dx,dy); else { h.setRotation(1); h.setTranslation(dx,dy); }
	Point2d q=h*Point2d(x,y);
	check( nearpt(q,x+dx,y+dy), "translates" );
	obs("q",q);
}
CASE(scale)
{
	Num x=in("x",-10,10), y=in("y",-10,10), kx=in("kx",-50,50), ky=in("ky",-50,50); int s=choose("s",6);
	Homogr h;
	if( s==0 ) h.setScale(kx,ky); else if( s==1 ) h.addScale(kx,ky); else if( s==2 ) h.setScale(kx); else if( s==3 ) h.addScale(kx);
	else if( s==4 ) { h.setTranslation(3,4); h.setScale(kx,ky); } else { h.setScale(7); h.setScale(kx); }
	Num k2= s==0||s==1||s==4? ky: kx;
	check( nearpt( h*Point2d(x,y), x*kx, y*k2, 1e-4 ), "scales" );
}
CASE(rotation)
{
	Num x=in("x",-10,10), y=in("y",-10,10), t=in("t",-3.1,3.1); int s=choose("s",4);
	Homogr h;
	if( s==0 ) h.setRotation(t); else if( s==1 ) h.addRotation(t); else if( s==2 ) h=Homogr(t); else { h.setScale(4); h.setRotation(t); }
	Num c=std::cos(t), n=std::sin(t);
	Point2d q=h*Point2d(x,y);
	check( nearpt(q,c*x-n*y,n*x+c*y,1e-5), "rotates" );
	check( near( q.getX()*q.getX()+q.getY()*q.getY(), x*x+y*y, 1e-4 ), "keeps-norm" );
}
CASE(rotation_values)
{
	int k=choose("k",5); Num x=in("x",-10,10), y=in("y",-10,10);
	static const double t[5]={0,M_PI/2,M_PI,-M_PI/2,M_PI/6};
	Homogr h; h.setRotation(t[k]);
	static const double c[5]={1,0,-1,0,0.86602540378443864676}, s[5]={0,1,0,-1,0.5};
	check( nearpt( h*Point2d(x,y), c[k]*x-s[k]*y, s[k]*x+c[k]*y ), "counter-clockwise" );
}
// any number of turns
CASE(rotation_turns)
{
	int k=choose("k",6), w=choose("w",3); Num x=in("x",-10,10), y=in("y",-10,10); static const double t[6]={2*M_PI,4.2,-5.5,7.5,-9.9,25};
	Homogr h; if( w==0 ) h.setRotation(t[k]); else if( w==1 ) h.addRotation(t[k]); else h=Homogr(t[k]); double c=std::cos(t[k]), s=std::sin(t[k]);
	check( nearpt( h*Point2d(x,y), c*x-s*y, s*x+c*y ), "turns" );
}
static const int NEL=5;
static void addEl( Homogr& h, int op, const Num& u, const Num& v, Num& x, Num& y )
{
	Num a=x, b=y;
	if( op==0 ) { h.addTranslation(u,v); x=a+u; y=b+v; }
	else if( op==1 ) { h.addScale(u,v); x=a*u; y=b*v; }
	else if( op==2 ) { h.addScale(u); x=a*u; y=b*u; }
	else if( op==3 ) { h.addRotation(M_PI/2); x=-b; y=a; }
	else { Num c=std::cos(u), s=std::sin(u); h.addRotation(u); x=c*a-s*b; y=s*a+c*b; }
}
CASE(sequence)
{
	Num x=in("x",-5,5), y=in("y",-5,5), u=in("u",-3,3), v=in("v",-3,3);
	int a=choose("a",NEL), b=choose("b",NEL), st=choose("st",3);
	Homogr h; Num X=x, Y=y;
	if( st==1 ) { h.setTranslation(2,-1); X=x+2; Y=y-1; }
	if( st==2 ) { h.setScale(2,3); X=x*2; Y=y*3; }
	addEl(h,a,u,v,X,Y); addEl(h,b,v,u,X,Y);
	check( nearpt( h*Point2d(x,y), X, Y, 1e-4 ), "applied-in-order" );
}
CASE(chained)
{
	Num x=in("x",-5,5), y=in("y",-5,5), u=in("u",-3,3), v=in("v",-3,3); int w=choose("w",2);
	Homogr h;
	if( w==0 ) { h.addTranslation(u,v).addScale(2,3).addRotation(M_PI/2); check( nearpt( h*Point2d(x,y), -3*(y+v), 2*(x+u), 1e-4 ), "chain" ); }
	else { h.setScale(u,v).addTranslation(1,2).addScale(2); check( nearpt( h*Point2d(x,y), 2*(x*u+1), 2*(y*v+2), 1e-4 ), "chain2" ); }
}
CASE(identity)
{
	Num x=in("x",-10,10), y=in("y",-10,10); int k=choose("k",6), w=choose("w",3);
	Homogr I; if( w==1 ) { I.setTranslation(4,5); I.init(); } if( w==2 ) { I=Homogr(baseMat(3)); Line2d before=I*Line2d(Point2d(1,2),Point2d(3,5)); I.init(); }
	// lines use the inverse, which must not be that of an earlier state
	Line2d li( Point2d(x,1), Point2d(x+3,y) ), lj=I*li; auto a=li.get(), b=lj.get(); check( And( near(a[0],b[0]), And( near(a[1],b[1]), near(a[2],b[2]) ) ), "identity-line" );
	check( nearpt( I*Point2d(x,y), x, y ), "identity" );
	check( nearMat(raw(I),baseMat(0)), "identity-matrix" );
	Homogr A(baseMat(k));
	check( A*I==A && I*A==A, "neutral" );
	check( I==Homogr(), "equal-default" );
}
CASE(rigid_inverse)
{
	Num x=in("x",-5,5), y=in("y",-5,5), t=in("t",-3,3), dx=in("dx",-5,5);
	Homogr h, g; h.addTranslation(dx,Num(2)).addRotation(t); g.addRotation(-t).addTranslation(-dx,Num(-2));
	check( nearpt( g*(h*Point2d(x,y)), x, y, 1e-5 ), "undone" );
	Homogr i=h; i.inverse();
	check( nearpt( i*(h*Point2d(x,y)), x, y, 1e-5 ), "inverse" );
}
// elements added to any transformation, perspective included
CASE(added_to_any)
{
	Num u=in("u",-3,3), v=in("v",-3,3); int k=choose("k",6), a=choose("a",NEL), w=choose("w",3);
	static const double P[3][2]={ {0,0}, {3,-2}, {-1,5} };
	M3 m=baseMat(k); if( k>3 ) m[2][0]=m[2][0]+u/32; Num x=P[w][0], y=P[w][1]; auto i=img3(m,x,y); away(i[2],0.1);
	Homogr h(m); Num X=i[0]/i[2], Y=i[1]/i[2]; addEl(h,a,v,u,X,Y);
	check( nearpt( h*Point2d(x,y), X, Y, 1e-4 ), "image" );
}
// set functions forget everything of what was there before, and apply to lines too (which use the inverse)
CASE(set_after)
{
	Num u=in("u",0.5,3), v=in("v",-5,5); int b=choose("b",5), a=choose("a",5), w=choose("w",3);
	static const double P[3][2]={ {0,0}, {3,-2}, {-1,5} };
	Homogr h;
	switch( b ) {
		case 0: h.addTranslation(500,-800); break;
		case 1: h.addScale(200,300); break;
		case 2: h.addRotation(1).addTranslation(-20000,300); break;
		case 3: h=Homogr(baseMat(5)); break;
		default: h=Homogr(baseMat(4)); h.addTranslation(1000,2000).addScale(.01,.02);
	}
	Line2d used=h*Line2d(Point2d(1,2),Point2d(3,5)); (void)used;
	if( a==0 ) h.setTranslation(u,v); else if( a==1 ) h.setScale(u,v+6); else if( a==2 ) h.setScale(u); else if( a==3 ) h.setRotation(M_PI/2); else { h.init(); }
	auto img=[&]( const Num& x, const Num& y )->std::pair<Num,Num> {
		if( a==0 ) return {x+u,y+v}; if( a==1 ) return {x*u,y*(v+6)}; if( a==2 ) return {x*u,y*u}; if( a==3 ) return {-y,x}; return {x,y}; };
	Num x=P[w][0], y=P[w][1]; auto q=img(x,y), r=img(x+2,y+1), mid=img(x+4,y+2);
	check( nearpt( h*Point2d(x,y), q.first, q.second, 1e-5 ), "image" );
	Line2d li=h*( Point2d(x,y)*Point2d(x+2,y+1) );
	check( absle( evalLine(li,mid.first,mid.second), 1e-5 ), "line-image" );
	check( absle( evalLine(li,q.first,q.second), 1e-5 ), "line-image-2" );
}
