// Stand-in for OpenCV: the types the binding exchanges, and drawing primitives that record their calls.
#pragma once
#include <string>
#include <vector>
#include <memory>
#include <algorithm>
#define CV_8U 0
#define CV_32F 5
#define CV_64F 6
#define CV_8UC3 16
#define CV_64FC2 14
namespace cv {
using symx::Num;
#ifdef SYMX
template<class T> using Store=Num;                // an integer or float coordinate keeps its exact value
template<class T> Num keep( const Num& a ) { return a; }
#else
template<class T> using Store=T;
template<class T> T keep( double a ) { return static_cast<T>(a); }
#endif
template<class T> struct Point_
{
	using value_type=T;
	Store<T> x,y;
	Point_(): x(0),y(0) {}
	template<class A,class B> Point_( const A& a, const B& b ): x(keep<T>(a)), y(keep<T>(b)) {}
	template<class U> Point_( const Point_<U>& o ): x(keep<T>(o.x)), y(keep<T>(o.y)) {}
};
using Point2d=Point_<Num>; using Point2f=Point_<float>; using Point2i=Point_<int>; using Point=Point2i;
struct Size { Num width,height; Size( Num a=0, Num b=0 ): width(a),height(b) {} };
struct Scalar { double v[4]; Scalar( double a=0, double b=0, double c=0, double d=0 ): v{a,b,c,d} {} double operator[]( int i ) const { return v[i]; } };
struct Op { std::string n; std::vector<Num> a; Scalar col; int thick=1, lt=8; std::string text; };
struct Rec { std::vector<Op> ops; bool mismatch=false; std::vector<Point2f> src,dst; std::vector<std::string> names; };
inline Rec& rec() { static Rec r; return r; }
class Mat
{
	int _type=0; std::shared_ptr<std::vector<Num>> d=std::make_shared<std::vector<Num>>();
	template<class T> void ok() const { if( std::is_same<T,float>::value ? _type!=CV_32F : _type!=CV_64F ) rec().mismatch=true; }
public:
	int rows=0, cols=0; Scalar fill;
	Mat() {}
	Mat( int r, int c, int t ) { create(r,c,t); }
	void create( int r, int c, int t ) { rows=r; cols=c; _type=t; d=std::make_shared<std::vector<Num>>( (size_t)r*c*channels() ); }
	int type() const { return _type; }
	int channels() const { return (_type>>3)+1; }
	int depth() const { return _type&7; }
	bool empty() const { return rows==0 || cols==0; }
	Mat& operator=( const Scalar& s ) { fill=s; return *this; }
	template<class T> Num* begin() { ok<T>(); return d->data(); }
	template<class T> Num* end() { return d->data()+d->size(); }
	template<class T> const Num* begin() const { ok<T>(); return d->data(); }
	template<class T> const Num* end() const { return d->data()+d->size(); }
	template<class T> Num& at( int r, int c ) { ok<T>(); return (*d)[r*cols+c]; }
	template<class T> const Num& at( int r, int c ) const { ok<T>(); return (*d)[r*cols+c]; }
};
inline Mat& persp() { static Mat m; return m; }
inline Mat getPerspectiveTransform( const std::vector<Point2f>& a, const std::vector<Point2f>& b ) { rec().src=a; rec().dst=b; return persp(); }
enum LineTypes { LINE_4=4, LINE_8=8, LINE_AA=16 };
enum { FONT_HERSHEY_SIMPLEX=0 };
inline void line( Mat&, Point a, Point b, const Scalar& c, int th=1, int lt=8 ) { rec().ops.push_back( Op{"line",{a.x,a.y,b.x,b.y},c,th,lt,""} ); }
inline void rectangle( Mat&, Point a, Point b, const Scalar& c, int th=1, int lt=8 ) { rec().ops.push_back( Op{"rect",{a.x,a.y,b.x,b.y},c,th,lt,""} ); }
inline void circle( Mat&, Point a, int r, const Scalar& c, int th=1, int lt=8 ) { rec().ops.push_back( Op{"circle",{a.x,a.y,r},c,th,lt,""} ); }
inline void ellipse( Mat&, Point a, Size s, Num ang, Num a0, Num a1, const Scalar& c, int th=1, int lt=8 ) { rec().ops.push_back( Op{"ellipse",{a.x,a.y,s.width,s.height,ang,a0,a1},c,th,lt,""} ); }
inline void putText( Mat&, const std::string& t, Point a, int, double sc, const Scalar& c, int th=1, int lt=8 ) { rec().ops.push_back( Op{"text",{a.x,a.y,sc},c,th,lt,t} ); }
inline bool imwrite( const std::string& n, const Mat& ) { rec().names.push_back("w:"+n); return true; }
inline void imshow( const std::string& n, const Mat& ) { rec().names.push_back("s:"+n); }
} // namespace cv
