// homography families: (k) concrete base matrix with symbolic entries placed at positions chosen by the family
#pragma once
#include "lib.hpp"
using M3=std::array<std::array<Num,3>,3>;
inline M3 baseMat( int k )
{
	static const double t[6][9]={
		{1,0,0, 0,1,0, 0,0,1},
		{2,-1,3, 0.5,1.5,-2, 0,0,1},
		{0.6,-0.8,5, 0.8,0.6,-1, 0,0,1},
		{0,2,1, -3,0,4, 0,0,1},
		{1.5,0.25,-1, -0.5,2,3, 0.125,-0.0625,1},
		{-1,0.5,2, 1,1,-1, 0.0625,0.125,2} };
	M3 m; for( int i=0;i<9;i++ ) m[i/3][i%3]=t[k][i];
	return m;
}
inline Num det3( const M3& m )
{
	return m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1])-m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0])+m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0]);
}
inline M3 mul3( const M3& a, const M3& b )
{
	M3 r; for(int i=0;i<3;i++) for(int j=0;j<3;j++) { Num s=0; for(int k=0;k<3;k++) s+=a[i][k]*b[k][j]; r[i][j]=s; }
	return r;
}
// the homogeneous image of (x,y,1)
inline std::array<Num,3> img3( const M3& m, const Num& x, const Num& y )
{ return { m[0][0]*x+m[0][1]*y+m[0][2], m[1][0]*x+m[1][1]*y+m[1][2], m[2][0]*x+m[2][1]*y+m[2][2] }; }
inline M3 raw( const Homogr& h ) { M3 m; const Homogr& c=h; for(int i=0;i<3;i++) for(int j=0;j<3;j++) m[i][j]=c.value(i,j); return m; }
// m and n are the same up to scale
inline Fm sameScale( const M3& m, const M3& n, double tol=1e-6 )
{
	std::vector<Fm> v;
	for( int i=0;i<9;i++ ) v.push_back( near( m[i/3][i%3]*n[2][2], n[i/3][i%3]*m[2][2], tol ) );
	return all(v);
}
inline Fm nearMat( const M3& m, const M3& n, double tol=1e-6 )
{
	std::vector<Fm> v;
	for( int i=0;i<9;i++ ) v.push_back( near( m[i/3][i%3], n[i/3][i%3], tol ) );
	return all(v);
}
// p is the image of (x,y) by m
inline Fm isImage( const Point2d& p, const M3& m, const Num& x, const Num& y, double tol=1e-5 )
{
	auto h=img3(m,x,y);
	return And( near( p.getX()*h[2], h[0], tol ), near( p.getY()*h[2], h[1], tol ) );
}
