#include "hlib.hpp"
static const Dir DU[4]={{1,0},{0,1},{0.6,0.8},{-0.8,0.6}};
static Ellipse E( Num x, Num y, Num A, Num B, Dir u ) { return Ellipse( x,y,A,B, Num(std::atan2(u.y,u.x)) ); }
static Num form( Num px, Num py, Num cx, Num cy, Num A, Num B, Dir u )
{ Num x=px-cx, y=py-cy, s=x*u.x+y*u.y, t=y*u.x-x*u.y; return s*s*B*B+t*t*A*A-A*A*B*B; }
static Num conic( const Ellipse& e, Num x, Num y, Num w )
{
	auto& m=e.getRaw();
	return m[0][0]*x*x+m[1][1]*y*y+m[2][2]*w*w+(m[0][1]+m[1][0])*x*y+(m[0][2]+m[2][0])*x*w+(m[1][2]+m[2][1])*y*w;
}
static Homogr H( const M3& m ) { Homogr h; for(int i=0;i<3;i++) for(int j=0;j<3;j++) h.value(i,j)=m[i][j]; return h; }
// the image: conic'(H p) is proportional to conic(p), positive factor
static void isImg( const Ellipse& e2, const M3& m, Num cx, Num cy, Num A, Num B, Dir u, Num x, Num y, const std::string& w )
{
	auto i=img3(m,x,y), c=img3(m,cx,cy);
	Num q=form(x,y,cx,cy,A,B,u), q2=conic(e2,i[0],i[1],i[2]), qc2=conic(e2,c[0],c[1],c[2]);
	check( near( q2*(-A*A*B*B), q*qc2, 1e-3 ), w+"-points" ); check( lt(qc2,-1e-3), w+"-sign" );
}
CASE(matrix_points)
{
	int b=choose("base",6), w=choose("w",5); M3 m=baseMat(b); Num x=in("x",-5,5), y=in("y",-5,5);
	Ellipse e=E(0.5,-1,3,1.5,DU[b%4]); Ellipse r=H(m)*e;
	isImg( r,m,0.5,-1,3,1.5,DU[b%4],x,y,"ellipse" );
	if( w==0 ) { Circle c(Point2d(-1,0.5),2); isImg( H(m)*c,m,-1,0.5,2,2,Dir{1,0},x,y,"circle" ); }
	if( w==1 ) { Homogr h=H(m), g; g=h; g=g*h; isImg( g*e,mul3(m,m),0.5,-1,3,1.5,DU[b%4],x,y,"composed" ); }
	if( w==2 ) { isImg( H(m)*(H(m)*e),mul3(m,m),0.5,-1,3,1.5,DU[b%4],x,y,"twice" ); }
	if( w==3 ) { Homogr h=H(m); h.inverse(); Ellipse q=h*r; Num v=form(x,y,0.5,-1,3,1.5,DU[b%4]), c2=conic(q,x,y,1); check( near( c2*(-20.25), v*conic(q,0.5,-1,1), 1e-3 ), "round-trip" ); }
	if( w==4 ) { Homogr h=H(m); Point2d p=h*Point2d(0,0); (void)p; h.addTranslation(1,2); M3 t=m; for(int j=0;j<3;j++) { t[0][j]=t[0][j]+t[2][j]; t[1][j]=t[1][j]+2*t[2][j]; } isImg( h*e,t,0.5,-1,3,1.5,DU[b%4],x,y,"modified" ); }
}
CASE(matrix_symbolic)
{
	int b=choose("base",6), pos=choose("pos",TH(6,9)); M3 m=baseMat(b); Num v=in("v",-3,3); m[pos/3][pos%3]=v; away(det3(m),0.05); assume( absge( raw(H(m))[2][2], 0.01 ) );
	Num t=in("t",-4,4); Num x=t, y=1-2*t;
	isImg( H(m)*E(0.5,-1,3,1.5,DU[b%4]),m,0.5,-1,3,1.5,DU[b%4],x,y,"ellipse" );
	isImg( H(m)*Circle(Point2d(-1,0.5),2),m,-1,0.5,2,2,Dir{1,0},x,y,"circle" );
}
CASE(ellipse_symbolic)
{
	int b=choose("base",6), k=choose("k",4), w=choose("w",3); M3 m=baseMat(b); Num s=in("s",0.5,4), t=in("t",-4,4), x=t, y=1-2*t;
	Num cx= w==1? s : Num(0.5), cy= w==2? s : Num(-1), A= w==0? s+1 : Num(3);
	isImg( H(m)*E(cx,cy,A,1.5,DU[k]),m,cx,cy,A,1.5,DU[k],x,y,"ellipse" );
	if( k==0 ) isImg( H(m)*Circle(Point2d(cx,cy),A),m,cx,cy,A,A,Dir{1,0},x,y,"circle" );
}
// reported values of the image by similarities and affinities
CASE(similarity)
{
	int k=choose("k",4), r=choose("rot",4), f=choose("circle",2); static const Dir R[4]={{1,0},{0,1},{0.6,0.8},{-0.28,0.96}};
	Num s=in("s",0.3,3), tx=in("tx",-5,5); Dir q=R[r]; M3 m=baseMat(0); m[0][0]=s*q.x; m[0][1]=-s*q.y; m[1][0]=s*q.y; m[1][1]=s*q.x; m[0][2]=tx; m[1][2]=2;
	Ellipse e= f? H(m)*Circle(Point2d(1,2),1.5) : H(m)*E(1,2,3,1.5,DU[k]); Num A=f?1.5:3, B=1.5; auto c=img3(m,1,2);
	check( nearpt( e.getCenter(),c[0],c[1],1e-4 ), "center" ); auto mm=e.getMajMin();
	check( And( near(mm.first,A*s,1e-4), near(mm.second,B*s,1e-4) ), "axes" );
	check( near( e.area(), M_PI*A*B*s*s, 1e-3 ), "area" );
	if( f ) check( e.isCircle(1e-6), "circle" );
	else { Dir u=DU[k]; Num ux=q.x*u.x-q.y*u.y, uy=q.y*u.x+q.x*u.y; check( near( std::cos(e.angle())*uy-std::sin(e.angle())*ux, 0, 1e-4 ), "angle" ); }
}
CASE(affinity_area)
{
	int k=choose("k",3), b=choose("b",3); Num s=in("s",0.4,3); M3 m=baseMat(b==2?3:b); m[0][0]=m[0][0]+s;
	Num d=m[0][0]*m[1][1]-m[0][1]*m[1][0]; away(d,0.1); Ellipse e=H(m)*E(1,2,3,1.5,DU[k]); auto c=img3(m,1,2);
	check( nearpt( e.getCenter(),c[0],c[1],1e-4 ), "center" ); auto mm=e.getMajMin();
	Num p=mm.first*mm.second; check( near( p*p, sq(4.5*d), 1e-3 ), "area" ); check( ge( mm.first, mm.second-1e-6 ), "order" );
	Num trc=0; Dir u=DU[k]; // sum of the squared half axes: the frobenius norm of the mapped frame
	Num ax=m[0][0]*u.x+m[0][1]*u.y, ay=m[1][0]*u.x+m[1][1]*u.y, bx=-m[0][0]*u.y+m[0][1]*u.x, by=-m[1][0]*u.y+m[1][1]*u.x;
	trc=9*(ax*ax+ay*ay)+2.25*(bx*bx+by*by); check( near( sq(mm.first)+sq(mm.second), trc, 1e-3 ), "axes" );
}
CASE(inside_image)
{
	int k=choose("k",2), b=choose("b",3); M3 m=baseMat(b+1); Num x=in("x",-4,5), y=in("y",-5,4); Num v=form(x,y,0.5,-1,3,1.5,DU[k*2]); away(v,0.1);
	Homogr h=H(m); Ellipse e=h*E(0.5,-1,3,1.5,DU[k*2]); auto i=img3(m,x,y);
	check( Point2d(i[0]/i[2],i[1]/i[2]).isInside(e)==branch( lt(v,0) ), "inside" );
}
static void isEll( const Ellipse& e, Num x, Num y, Num A, Num B, Dir u, const std::string& w )
{
	auto mm=e.getMajMin();
	check( nearpt( e.getCenter(), x,y, 1e-5 ), w+"-center" );
	check( And( near(mm.first,A,1e-5), near(mm.second,B,1e-5) ), w+"-axes" );
	check( near( std::cos(e.angle())*u.y-std::sin(e.angle())*u.x, 0, 1e-5 ), w+"-angle" );
}
CASE(ellipse_moves)
{
	int k=choose("k",4), w=choose("w",7); Num x=in("x",-5,5), dx=in("dx",-5,5), dy=in("dy",-5,5), A= w>4? in("A",2,5) : Num(3); Ellipse e=E(x,1,A,1.5,DU[k]);
	if( w==0 ) e.translate(dx,dy); if( w==1 ) e.translate( std::make_pair(dx,dy) ); if( w==2 ) translate( e,dx,dy ); if( w==5 ) { e.translate(dx,0); e.translate(0,dy); }
	if( w==3 ) e.moveTo(x+dx,1+dy); if( w==4 ) e.moveTo( Point2d(x+dx,1+dy) ); if( w==6 ) { e.moveTo(7,7); moveTo( e,Point2d(x+dx,1+dy) ); }
	isEll( e,x+dx,1+dy,A,1.5,DU[k],"moved" );
}
CASE(mixed_histories)
{
	int k=choose("k",4), w=choose("w",3); Num dx=in("dx",-5,5); Ellipse e=E(1,2,3,1.5,DU[k]); Homogr h; h.setTranslation(1,-1);
	if( w==0 ) { e.translate(dx,1); (void)e.getCenter(); e=h*e; isEll( e,2+dx,2,3,1.5,DU[k],"move-transform" ); }
	if( w==1 ) { e=h*e; (void)e.angle(); e.translate(dx,1); isEll( e,2+dx,2,3,1.5,DU[k],"transform-move" ); }
	if( w==2 ) { Homogr q; q.setRotation(M_PI/2); e=q*e; e.moveTo(dx,1); Dir u{-DU[k].y,DU[k].x}; isEll( e,dx,1,3,1.5,u,"rotate-move" ); }
}
CASE(circle_moves)
{
	int w=choose("w",7); Num x=in("x",-5,5), y=in("y",-5,5), R=in("R",0.1,5), dx=in("dx",-5,5), dy=in("dy",-5,5); Circle c(Point2d(x,y),R);
	if( w==0 ) c.translate(dx,dy); if( w==1 ) c.translate( std::make_pair(dx,dy) ); if( w==2 ) translate( c,dx,dy ); if( w==5 ) { c.translate(dx,0); c.translate(0,dy); }
	if( w==3 ) c.moveTo(x+dx,y+dy); if( w==4 ) c.moveTo( Point2d(x+dx,y+dy) ); if( w==6 ) { c.moveTo(7,7); moveTo( c,Point2d(x+dx,y+dy) ); }
	check( nearpt( c.center(),x+dx,y+dy ), "center" ); check( near( c.radius(),R,1e-9 ), "radius" ); check( near( c.area(),M_PI*R*R,1e-4 ), "area" ); check( near( c.length(),2*M_PI*R,1e-4 ), "length" );
}
CASE(circle_access)
{
	Num x=in("x",-5,5), y=in("y",-5,5), R=in("R",0.1,5); Circle c; check( nearpt(c.center(),0,0), "default-center" ); check( near(c.radius(),1), "default-radius" );
	c.set(R); check( And( nearpt(c.center(),0,0), near(c.radius(),R) ), "set-radius" );
	c.set(Point2d(x,y)); check( nearpt(c.center(),x,y) , "set-center" ); check( near(c.radius(),R), "keeps-radius" );
	Circle d(x,y,R), e(Point2d(x,y),R), g(R); check( d==e && !(d!=e), "equal" ); check( nearpt(center(d),x,y), "free-center" ); check( near(radius(d),R), "free-radius" );
	check( And( nearpt(g.center(),0,0), near(g.radius(),R) ), "radius-only" ); Circle h(Point2d(x+0.1,y),R), i(Point2d(x,y),R+0.1); check( d!=h && d!=i, "differ" );
	c.radius()=2; check( near(c.radius(),2), "ref" ); c.center().set(1,2); check( nearpt(c.center(),1,2), "center-ref" );
}
// a single perspective value
CASE(perspective_one)
{
	int b=choose("base",3), w=choose("which",2), k=choose("k",4); static const int B[3]={0,1,3}; M3 m=baseMat(B[b]); Num v=in("v",-0.1,0.1), t=in("t",-3,3), x=t, y=1-2*t; m[2][w]=v; if( b==0 ) { m[0][1]=0.3; m[1][0]=-0.2; }
	isImg( H(m)*E(0.5,-1,3,1.5,DU[k]),m,0.5,-1,3,1.5,DU[k],x,y,"ellipse" ); if( k==0 ) isImg( H(m)*Circle(Point2d(-1,0.5),2),m,-1,0.5,2,2,Dir{1,0},x,y,"circle" );
}
