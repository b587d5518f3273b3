From e677a1574fa213c046216810c0281931daf9b563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:14 +0000
Subject: [PATCH 01/47] fix: keep the stored inverse and the normalization flag
 of homographies in step with modifications

---
 homog2d.hpp | 41 ++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 69d091c..6e6cec1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -1502,6 +1502,7 @@ public:
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
 		_mdata[r][c] = v;
+		_isNormalized = false;
 	}
 
 	const FPT& value( size_t r, size_t c ) const
@@ -1516,6 +1517,7 @@ public:
 		#ifndef HOMOG2D_NOCHECKS
 			HOMOG2D_CHECK_ROW_COL;
 		#endif
+		_isNormalized = false;
 		return _mdata[r][c];
 	}
 
@@ -1807,7 +1809,10 @@ Thus some assert can get triggered elsewhere.
 	Hmatrix_& operator = ( const Hmatrix_<M,FPT>& other )
 	{
 		if( this != &other )
+		{
 			detail::Matrix_<FPT>::getRaw() = other.getRaw();
+			detail::Matrix_<FPT>::_isNormalized = other.isNormalized();
+		}
 		_hasChanged = true;
 		return *this;
 	}
@@ -1854,7 +1859,41 @@ Thus some assert can get triggered elsewhere.
 	void init()
 	{
 		impl_mat_init0( detail::BaseHelper<M>() );
+		_hasChanged = true;
+	}
+
+/// \name Access to values
+/// Same as in detail::Matrix_, but any (potential) change discards the stored \f$ H^{-1} \f$
+///@{
+	detail::matrix_t<FPT>& getRaw()
+	{
+		detail::Matrix_<FPT>::_isNormalized = false;
+		_hasChanged = true;
+		return detail::Matrix_<FPT>::getRaw();
+	}
+	const detail::matrix_t<FPT>& getRaw() const { return detail::Matrix_<FPT>::getRaw(); }
+
+	template<typename T>
+	void set( size_t r, size_t c, T v )
+	{
+		detail::Matrix_<FPT>::set( r, c, v );
+		_hasChanged = true;
+	}
+
+	FPT& value( size_t r, size_t c )
+	{
+		_hasChanged = true;
+		return detail::Matrix_<FPT>::value( r, c );
 	}
+	const FPT& value( size_t r, size_t c ) const { return detail::Matrix_<FPT>::value( r, c ); }
+
+	Hmatrix_& transpose()
+	{
+		detail::Matrix_<FPT>::transpose();
+		_hasChanged = true;
+		return *this;
+	}
+///@}
 
 /// \name Adding/assigning a transformation
 ///@{
@@ -5427,7 +5466,7 @@ SegVec<SV,FPT>::getPointAt( FPT2 dist ) const
 		return ppts.first;
 	else
 		return ppts.second;
-}
+}
 
 //------------------------------------------------------------------
 /// Returns two parallel segments to the current one in a pair
-- 
2.43.0


From 3adc513bb0b7a1430a2edee11607eb88274148b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:44 +0000
Subject: [PATCH 02/47] fix: transform lines by homographies whose inverse has
 a null last value

---
 homog2d.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6e6cec1..5ab70d5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9724,9 +9724,8 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 
 	if( h._hasChanged )                  // if homography has changed, recompute inverse and transposed
 	{
-		auto hi = h;
-		auto mat_inv = hi.inverse().transpose();
-		*h._hmt = mat_inv;
+		detail::Matrix_<U> hi = h;       // plain matrix: value (2,2) of the inverse may be null, so no normalization here
+		*h._hmt = hi.inverse().transpose();
 		h._hasChanged = false;
 	}
 
-- 
2.43.0


From 204c50bc67008732deaddb3ed7f04540d649e3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 03/47] fix: order the points of a Segment converted from an
 OSegment

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 5ab70d5..606a771 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4981,7 +4981,7 @@ Please note that the source (points) floating-point type is lost
 			( std::is_same_v<SV,typ::IsOSeg> && std::is_same_v<SV2,typ::IsOSeg> ) ),
 			"Cannot build a OSegment from a Segment"
 		);
-		if constexpr( std::is_same_v<SV2,typ::IsSegment> )
+		if constexpr( std::is_same_v<SV,typ::IsSegment> )
 			priv::fix_order( _ptS1, _ptS2 );
 	}
 
-- 
2.43.0


From 32d1677d70f053b24ba6fa8f317e1e7e6cd9e791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:38 +0000
Subject: [PATCH 04/47] fix: unary minus on an OSegment leaves its operand
 unchanged

---
 homog2d.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 606a771..546d051 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4990,12 +4990,11 @@ Please note that the source (points) floating-point type is lost
 /// \name Modifying functions
 ///@{
 
-/// Reverse oriented segment
-	SegVec<SV,FPT> operator - ()
+/// Returns the reversed oriented segment
+	SegVec<SV,FPT> operator - () const
 	{
 		static_assert( !std::is_same_v<SV,typ::IsSegment>, "cannot reverse non-oriented segment" );
-		std::swap( _ptS1, _ptS2 );
-		return *this;
+		return SegVec<SV,FPT>( _ptS2, _ptS1 );
 	}
 
 /// Setter
-- 
2.43.0


From ce5ce60c911f3f4926f5c692b6213a174dc8f7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 05/47] fix: a transformed OSegment keeps its orientation

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 546d051..b22077b 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9736,13 +9736,13 @@ operator * ( const Homogr_<U>& h, const Line2d_<T>& in )
 
 /// Apply homography to a Segment
 template<typename SV,typename FPT1,typename FPT2>
-Segment_<FPT1>
+base::SegVec<SV,FPT1>
 operator * ( const Homogr_<FPT1>& h, const base::SegVec<SV,FPT2>& seg )
 {
 	const auto& pts = seg.getPts();
 	Point2d_<FPT1> pt1 = h * pts.first;
 	Point2d_<FPT1> pt2 = h * pts.second;
-	return base::SegVec<SV,FPT2>( pt1, pt2 );
+	return base::SegVec<SV,FPT1>( pt1, pt2 );
 }
 
 /// Apply homography to a Polyline
-- 
2.43.0


From fdc35fa2b36f6fa38f603cb1c17914f529480a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 06/47] fix: distance between nearly parallel lines whose
 coefficients have opposite signs

---
 homog2d.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index b22077b..8ca796f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11022,9 +11022,8 @@ getParallelDistance( const Line2d_<FPT>& li1, const Line2d_<FPT>& li2 )
 	const HOMOG2D_INUMTYPE b2 = ar2[1];
 	const HOMOG2D_INUMTYPE c2 = ar2[2];
 
-	HOMOG2D_INUMTYPE a = homog2d_sqrt( a1*a2 );
-	HOMOG2D_INUMTYPE b = homog2d_sqrt( b1*b2 );
-	return homog2d_abs( c1 - c2 ) / homog2d_sqrt( a*a + b*b );
+	const HOMOG2D_INUMTYPE dot = a1*a2 + b1*b2;  // negative if the normals have opposite directions
+	return homog2d_abs( dot < 0 ? c1 + c2 : c1 - c2 ) / homog2d_sqrt( homog2d_abs(dot) );
 }
 
 /// Return angle of ellipse (free function)
-- 
2.43.0


From ba78dabba71d23f5a5b4eda365668e9961b9f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:45 +0000
Subject: [PATCH 07/47] fix: no NaN intersection points for tangent circles

---
 homog2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 8ca796f..37cbf5c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5864,7 +5864,10 @@ Circle_<FPT>::intersects( const Circle_<FPT2>& other ) const
 
 	auto d = homog2d_sqrt( d_squared );
 	auto a = (r1*r1 - r2*r2 + d_squared) / (HOMOG2D_INUMTYPE)2. / d;
-	auto h = homog2d_sqrt( r1*r1 - a*a );
+	auto h_squared = r1*r1 - a*a;
+	if( h_squared < 0. )            // tangent circles: rounding errors may give a negative value
+		h_squared = 0.;
+	auto h = homog2d_sqrt( h_squared );
 
 	Point2d_<FPT> P0(
 		( x2 - x1 ) * a / d + x1,
-- 
2.43.0


From 3f8cef564ae668633b13d1139f88753bf80e1c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:28 +0000
Subject: [PATCH 08/47] fix: report the second point where a segment ending on
 a circle crosses it

---
 homog2d.hpp | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 37cbf5c..9077ef1 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8327,7 +8327,7 @@ That makes 6 different situations to handle:
   - S4A: if line does NOT intersects circle, no intersection pts
   - S4B: if line does intersects circle, and intersections point in segment area => 2 intersection pts
   - S4C: if line does intersects circle, and intersections point NOT in segment area => no intersection pts
- - S5: PO-PE => 1 intersection
+ - S5: PO-PE => 1 intersection, 2 if the segment also crosses the circle
  - S6: PE-PE => 2 intersections
 */
 template<typename SV,typename FPT>
@@ -8383,11 +8383,27 @@ SegVec<SV,FPT>::intersects( const Circle_<FPT2>& circle ) const
 		return out;
 	}
 
-	if( tag_ptS1 == PtTag::OnEdge )
+	if( tag_ptS1 == PtTag::OnEdge && tag_ptS2 == PtTag::OnEdge )
+	{
 		out.add( _ptS1 );
-	if( tag_ptS2 == PtTag::OnEdge )
 		out.add( _ptS2 );
+		return out;
+	}
 
+// here, one point is on the edge: if the other one is outside, the segment may also cross the circle
+	const auto& ptEdge  = ( tag_ptS1 == PtTag::OnEdge ? _ptS1 : _ptS2 );
+	const auto& ptOther = ( tag_ptS1 == PtTag::OnEdge ? _ptS2 : _ptS1 );
+	out.add( ptEdge );
+	if( tag_ptS1 == PtTag::Outside || tag_ptS2 == PtTag::Outside )
+	{
+		bool p1IsEdge = ptEdge.distTo( p1 ) < ptEdge.distTo( p2 );
+		const auto& pt = ( p1IsEdge ? p2 : p1 ); // the other point of the circle, on the supporting line
+		if(
+			ptEdge.distTo( pt ) >= thr::nullDistance()
+			&& homog2d_abs( ptEdge.distTo( pt ) + ptOther.distTo( pt ) - length() ) < thr::nullDistance()
+		)
+			out.add( pt );
+	}
 	return out;
 }
 
-- 
2.43.0


From 5d352f5da13fbd50a2f6d26b5170552a05a1b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:24 +0000
Subject: [PATCH 09/47] fix: minimum enclosing circle of aligned, cocircular,
 repeated or three points, from any container

---
 homog2d.hpp | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 9077ef1..bead4b5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5667,6 +5667,13 @@ Circle_<FPT>::set(
 //------------------------------------------------------------------
 namespace priv {
 
+/// Free function, returns true if the circle encloses the point (points on the edge are considered as enclosed)
+template<typename FPT1,typename PT>
+bool isEnclosedBy( const PT& pt, const Circle_<FPT1>& circ )
+{
+	return pt.distTo( circ.center() ) < circ.radius() + thr::nullDistance();
+}
+
 /// Free Function to check whether a circle encloses the given points
 template<typename FPT1,typename PT>
 bool is_valid_circle(
@@ -5675,7 +5682,7 @@ bool is_valid_circle(
 )
 {
 	for( const auto& pt: pts )
-		if( !pt.isInside( circ ) )
+		if( !isEnclosedBy( pt, circ ) )
 			return false;
 	return true;
 }
@@ -5742,7 +5749,7 @@ Circle_<FPT>::p_WelzlHelper(
 
 	// Get the MEC circle d from the set of points P - {p}
 	auto d = p_WelzlHelper( P, R, n - 1 );
-	if( p.isInside( d ) )
+	if( priv::isEnclosedBy( p, d ) )
 			return d;
 
 	// Otherwise, must be on the boundary of the MEC
@@ -5779,13 +5786,7 @@ Circle_<FPT>::set( const T& pts )
 
 	if( pts.size() == 2 )
 	{
-		set( pts[0], pts[1] );
-		return;
-	}
-
-	if( pts.size() == 3 ) // todo: convert pts to HOMOG2D_INUMTYPE
-	{
-		set( pts[0], pts[1], pts[2] );
+		set( *std::begin(pts), *std::next( std::begin(pts) ) );
 		return;
 	}
 
@@ -5793,10 +5794,19 @@ Circle_<FPT>::set( const T& pts )
 //	std::random_shuffle( P_copy.begin(), P_copy.end() ); // ? check: what happens if removed?
 	std::vector<Point2d_<HOMOG2D_INUMTYPE>> R;
 
-	h2d::thr::doNotCheckRadius() = true;
-	auto cir = p_WelzlHelper( P_copy, R, P_copy.size() );
+// null radius circles are needed while computing, but not accepted as a result
+	struct NoRadiusCheck
+	{
+		NoRadiusCheck()  { h2d::thr::doNotCheckRadius() = true; }
+		~NoRadiusCheck() { h2d::thr::doNotCheckRadius() = false; }
+	};
+	auto compute = [&]
+	{
+		NoRadiusCheck guard;
+		return p_WelzlHelper( P_copy, R, P_copy.size() );
+	};
+	auto cir = compute();
 	set( cir.center(), cir.radius() );
-	h2d::thr::doNotCheckRadius() = false;
 }
 
 //------------------------------------------------------------------
-- 
2.43.0


From 24390a1ce3f9d658aa42dbd5806896ed676f9d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:54 +0000
Subject: [PATCH 10/47] fix: point aligned with a side of a polygon, but not on
 it, was reported as outside

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bead4b5..99a70ba 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9436,7 +9436,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 
 // step 2: check if point is lying on one of the segments. If so, return false;
 	for( auto seg: poly.getSegs() )
-		if( seg.getLine().distTo( *this ) < thr::nullDistance() )
+		if( seg.distTo( *this ) < thr::nullDistance() )
 				return false;
 
 	auto segarr = bbox.getExtended().getSegs();
-- 
2.43.0


From 331e5199c0cfe8832c884f9b826155926f84202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:18 +0000
Subject: [PATCH 11/47] fix: FRect_::moveTo() did not compile

---
 homog2d.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 99a70ba..7445dee 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2903,18 +2903,20 @@ public:
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
 
-		auto s = size();
+		auto w = width();
+		auto h = height();
 		_ptR1.set(x,y);
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		_ptR2.set( _ptR1.getX() + w, _ptR1.getY() + h );
 	}
 
 /// Move FRect to other location, given by \c pt
 	template<typename T1>
 	void moveTo( const Point2d_<T1>& pt )
 	{
-		auto s = size();
+		auto w = width();
+		auto h = height();
 		_ptR1 = pt;
-		_ptR2.set( _ptR1.getX() + s.first, _ptR1.getY() + s.second );
+		_ptR2.set( _ptR1.getX() + w, _ptR1.getY() + h );
 	}
 
 	template<typename FPT2>
-- 
2.43.0


From 75542bbfe8b851668dd80a197ebcbe85a2182aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:27 +0000
Subject: [PATCH 12/47] fix: union of rectangles sharing a coordinate

---
 homog2d.hpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7445dee..d7be36c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7885,16 +7885,21 @@ struct Index
 {
 	T       _value;
 	uint8_t _rect_idx=0;   // 0 means none, will be 1 or 2
+	bool    _isMax=false;  // true if highest coordinate of the rectangle
 
 	Index() = default;
-	Index( T v, uint8_t r )
-		: _value(v), _rect_idx(r)
+	Index( T v, uint8_t r, bool isMax )
+		: _value(v), _rect_idx(r), _isMax(isMax)
 	{}
 	friend bool operator < ( const Index& i1, const Index& i2 )
 	{
 
 		if( i1._value == i2._value )
+		{                                 // if same value, lowest sides first, so that
+			if( i1._isMax != i2._isMax )  // touching rectangles are handled as overlapping
+				return i2._isMax;
 			return i1._rect_idx < i2._rect_idx;
+		}
 		return i1._value < i2._value;
 	}
 	friend std::ostream& operator << ( std::ostream& f, const Index& idx )
@@ -8176,16 +8181,16 @@ FRect_<FPT>::unionArea( const FRect_<FPT2>& other ) const
 // step 1: build vectors of coordinates and sort them
 	std::array<Index<FPT>,4> vx, vy;
 	int i=0;
-	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1 );
-	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1 );
-	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2 );
-	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2 );
+	vx[i++] = Index<FPT>( r1.getPts().first.getX(),  1, false );
+	vx[i++] = Index<FPT>( r1.getPts().second.getX(), 1, true );
+	vx[i++] = Index<FPT>( r2.getPts().first.getX(),  2, false );
+	vx[i++] = Index<FPT>( r2.getPts().second.getX(), 2, true );
 
 	i=0;
-	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1 );
-	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1 );
-	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2 );
-	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2 );
+	vy[i++] = Index<FPT>( r1.getPts().first.getY(),  1, false );
+	vy[i++] = Index<FPT>( r1.getPts().second.getY(), 1, true );
+	vy[i++] = Index<FPT>( r2.getPts().first.getY(),  2, false );
+	vy[i++] = Index<FPT>( r2.getPts().second.getY(), 2, true );
 
 	std::sort( vx.begin(), vx.end() );
 	std::sort( vy.begin(), vy.end() );
-- 
2.43.0


From 4b066160d185d273c29fadeaff36dbc913123d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 13/47] fix: comparing ellipses modified them, and threw for
 outlines going through the origin

---
 homog2d.hpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d7be36c..1348e35 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2392,27 +2392,27 @@ public:
 	friend std::ostream&
 	operator << ( std::ostream& f, const Ellipse_<T>& ell );
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator
+/**
+The matrix of a conic is defined up to a scale factor, thus the comparison is done on matrices
+divided by their norm. We don't use the matrix normalization here: value (2,2) is null
+for an ellipse going through (0,0), negative if (0,0) is inside, and the operands must be left unchanged.
+*/
 	bool operator == ( const Ellipse_& h ) const
 	{
-		auto& data = detail::Matrix_<FPT>::_mdata;
-
-		if( !detail::Matrix_<FPT>::isNormalized() )
-			detail::Matrix_<FPT>::p_normalizeMat(2,2);
-		if( !h.isNormalized() )
-			h.p_normalizeMat(2,2);
-
+		const auto norm1 = p_norm();
+		const auto norm2 = h.p_norm();
 		for( int i=0; i<3; i++ )
 			for( int j=0; j<3; j++ )
-				if( std::fabs(
-					static_cast<HOMOG2D_INUMTYPE>( data[i][j] ) - h.value(i,j) )
-					>= thr::nullDeter()
-				)
+				if( homog2d_abs(
+					static_cast<HOMOG2D_INUMTYPE>( this->value(i,j) ) / norm1
+					- static_cast<HOMOG2D_INUMTYPE>( h.value(i,j) ) / norm2
+				) >= thr::nullDeter() )
 					return false;
 		return true;
 	}
 
-/// Comparison operator. Does normalization if required
+/// Comparison operator
 	bool operator != ( const Ellipse_& e ) const
 	{
 		return !(*this == e);
@@ -2435,6 +2435,19 @@ is indeed a valid ellipse
 	template<typename T>
 	detail::EllParams<T> p_computeParams() const;
 
+/// Frobenius norm of the matrix
+	HOMOG2D_INUMTYPE p_norm() const
+	{
+		HOMOG2D_INUMTYPE sum = 0.;
+		for( int i=0; i<3; i++ )
+			for( int j=0; j<3; j++ )
+			{
+				HOMOG2D_INUMTYPE v = this->value(i,j);
+				sum += v*v;
+			}
+		return homog2d_sqrt( sum );
+	}
+
 /// Called by all the constructors, fills the matrix.
 	void p_init( double x0, double y0, double a, double b, double theta=0. )
 	{
-- 
2.43.0


From 4ccb8de874df36fa742f47a553becdbffad84648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:10 +0000
Subject: [PATCH 14/47] fix: angle of an ellipse with a vertical major axis,
 was in degrees

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1348e35..3dfabee 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -8631,7 +8631,7 @@ Ellipse_<FPT>::p_computeParams() const
 	if( homog2d_abs(B) < thr::nullDenom() )
 	{
 		if( A > C )
-			par.theta = 90.;
+			par.theta = M_PI/2.;
 	}
 	else
 	{
-- 
2.43.0


From 84437001c707e4f23e230f0ef5a22b8baf2cc142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:29 +0000
Subject: [PATCH 15/47] fix: centroid of a polyline was not updated after
 translate() and moveTo()

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3dfabee..1a7456f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6482,6 +6482,7 @@ Also use the areCollinear() function
 	{
 		HOMOG2D_CHECK_IS_NUMBER( TX );
 		HOMOG2D_CHECK_IS_NUMBER( TY );
+		_attribs.setBad();
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
@@ -6513,6 +6514,7 @@ Also use the areCollinear() function
 			HOMOG2D_THROW_ERROR_1( "Invalid call, Polyline is empty" );
 		auto dx = new_org.getX() - getPoint(0).getX();
 		auto dy = new_org.getY() - getPoint(0).getY();
+		_attribs.setBad();
 		for( auto& pt: _plinevec )
 			pt.translate( dx, dy );
 	}
-- 
2.43.0


From b65c1efb459a0e3063dbfb5abb78d18aeb749c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:31 +0000
Subject: [PATCH 16/47] fix: convexity of a polygon having aligned points,
 depended on its orientation

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 1a7456f..e7fb92d 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7521,6 +7521,8 @@ PolylineBase<PLT,FPT>::isConvex() const
 		auto dy2 = pt2.getY() - pt1.getY();
 
 		auto crossproduct = dx1*dy2 - dy1*dx2;
+		if( homog2d_abs(crossproduct) < thr::nullOrthogDistance() ) // aligned points: no turn here
+			continue;
 		if( sign == 0 )                          // initial sign value
 			sign = (crossproduct>0 ? +1 : -1);
 		else
-- 
2.43.0


From ec2578e4c02f816dd54a7e7a97df8dba4fd81141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:32 +0000
Subject: [PATCH 17/47] fix: normalize the direction of closed polylines whose
 smallest point is aligned with its neighbours

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e7fb92d..3db3b13 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7663,7 +7663,7 @@ base::PolylineBase<PLT,FPT>::p_normalizePoly() const
 			HOMOG2D_INUMTYPE yC = ptC.getY();
 
 			auto det = (xB-xA)*(yC-yA) - (xC-xA)*(yB-yA);
-			if( det < 0)
+			if( det < 0 || ( det == 0 && ptC < ptA ) ) // if aligned, the second one must be smaller than the last one
 			{
 				std::reverse( _plinevec.begin(), _plinevec.end() );
 				minpos = std::min_element( _plinevec.begin(), _plinevec.end() );
-- 
2.43.0


From d2786d47f51d1531c34bfd942c13564b35576548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:01 +0000
Subject: [PATCH 18/47] fix: common bounding box of an empty polyline and
 another object

---
 homog2d.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 3db3b13..4dd7cad 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10538,7 +10538,7 @@ getBB( const T1& elem1, const T2& elem2 )
 
 	bool isPoly_2 = false;
 	if( elem2.type() == Type::OPolyline || elem2.type() == Type::CPolyline )
-		isPoly_1 = true;
+		isPoly_2 = true;
 
 	auto siz_1 = elem1.size();
 	auto siz_2 = elem2.size();
@@ -10550,7 +10550,7 @@ getBB( const T1& elem1, const T2& elem2 )
 	FRect_<typename T1::FType> out;
 // we need to do that in two steps: first, copy return value into `out`, then return
 // because the underlying floating point might not be the same for the two arguments.
-	if( isPoly_2 && siz_1==0 )
+	if( isPoly_1 && siz_1==0 )
 	{
 		auto pp = ppair::getPointPair( elem2 );
 		if( shareCommonCoord(pp) )
@@ -10560,7 +10560,7 @@ getBB( const T1& elem1, const T2& elem2 )
 		else
 			return FRect_<typename T1::FType>( pp );
 	}
-	if( isPoly_1 && siz_2==0 )
+	if( isPoly_2 && siz_2==0 )
 	{
 		auto pp = ppair::getPointPair( elem1 );
 		if( shareCommonCoord(pp) )
-- 
2.43.0


From 44cfab2e129bdbe6b2f42356c1dd85697f73a529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:29 +0000
Subject: [PATCH 19/47] fix: common bounding box of a polyline having aligned
 points and another object

---
 homog2d.hpp | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4dd7cad..b582ac0 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -5958,8 +5958,10 @@ struct PolylineAttribs
 };
 
 //------------------------------------------------------------------
-/// Returns the bounding box of points in vector/list/array of points \c vpts (free function)
+/// Returns the points holding min and max coordinates of points in vector/list/array of points \c vpts (free function)
 /**
+No checking: the two points may be identical or share a coordinate
+\sa getBB_Points()
 \todo This loops twice on the points. Maybe some improvement here.
 */
 template<
@@ -5970,7 +5972,7 @@ template<
 	>::type* = nullptr
 >
 PointPair_<typename T::value_type::FType>
-getBB_Points( const T& vpts )
+getMinMax_Points( const T& vpts )
 {
 	HOMOG2D_START;
 	using FPT = typename T::value_type::FType;
@@ -5998,7 +6000,27 @@ getBB_Points( const T& vpts )
 	auto p1 = Point2d_<HOMOG2D_INUMTYPE>( mm_x.first->getX(),   mm_y.first->getY()  );
 	auto p2 = Point2d_<HOMOG2D_INUMTYPE>( mm_x.second->getX(),  mm_y.second->getY() );
 
+	return std::make_pair( p1, p2 );
+}
+
+//------------------------------------------------------------------
+/// Returns the bounding box of points in vector/list/array of points \c vpts (free function)
+template<
+	typename T,
+	typename std::enable_if<
+		trait::IsContainer<T>::value,
+		T
+	>::type* = nullptr
+>
+PointPair_<typename T::value_type::FType>
+getBB_Points( const T& vpts )
+{
+	HOMOG2D_START;
+	auto ppts = getMinMax_Points( vpts );
+
 #ifndef HOMOG2D_NOCHECKS
+	const auto& p1 = ppts.first;
+	const auto& p2 = ppts.second;
 	if( p1.distTo( p2 ) < thr::nullDistance() )
 		HOMOG2D_THROW_ERROR_1(
 			"unable to compute bounding box of set, identical points:\n -p1:"<< p1 << "\n -p2:" << p2
@@ -6010,7 +6032,7 @@ getBB_Points( const T& vpts )
 		);
 #endif // HOMOG2D_NOCHECKS
 
-	return std::make_pair( p1, p2 );
+	return ppts;
 }
 
 //------------------------------------------------------------------
@@ -10160,12 +10182,7 @@ getPointPair( const T& poly )
 
 	if( poly.size() == 0 )
 		HOMOG2D_THROW_ERROR_1( "cannot compute point pair of empty Polyline" );
-	if( poly.size() == 2 )
-	{
-		const auto& pts = poly.getPts();
-		return std::make_pair( pts[0], pts[1] );
-	}
-	return priv::getBB_Points( poly.getPts() );
+	return priv::getMinMax_Points( poly.getPts() ); // no checking: the points may be aligned
 }
 
 /// Returns pair of points defining a BB of a Point2d
-- 
2.43.0


From 7474e4fd74c78021605041d665fd1334e2e948bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:57 +0000
Subject: [PATCH 20/47] fix: bounding box of a container of OSegment objects

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index b582ac0..09c59f5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2144,6 +2144,7 @@ template <typename V, size_t n> struct IsArray<std::array<V, n>> : std::true_typ
 /// Traits class, used for getBB() set of functions
 template<class>   struct IsSegment              : std::false_type {};
 template<class T> struct IsSegment<Segment_<T>> : std::true_type  {};
+template<class T> struct IsSegment<OSegment_<T>>: std::true_type  {};
 template<class>   struct IsPoint                : std::false_type {};
 template<class T> struct IsPoint<Point2d_<T>>   : std::true_type  {};
 
-- 
2.43.0


From 9eb42db14952b40eec426bca414f15a72456db86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:24 +0000
Subject: [PATCH 21/47] fix: base::PolylineBase::getExtremePoint() did not
 compile

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 09c59f5..bc652ae 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7207,7 +7207,7 @@ template<typename PLT,typename FPT>
 Point2d_<FPT>
 PolylineBase<PLT,FPT>::getExtremePoint( CardDir dir ) const
 {
-	return getExtremePoint( dir, *this );
+	return h2d::getExtremePoint( dir, *this );
 }
 
 /// Return Bottom-most point of Polyline
-- 
2.43.0


From 41f3c22066435fa30d813aa06374a01a500eda87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:56 +0000
Subject: [PATCH 22/47] fix: convex hull of points having duplicates or points
 aligned with the lowest one

---
 homog2d.hpp | 49 ++++++++++++++++++++-----------------------------
 1 file changed, 20 insertions(+), 29 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index bc652ae..4d518b4 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11589,7 +11589,10 @@ sortPoints( const std::vector<Point2d_<FPT>>& in, size_t piv_idx )
 			auto dy1 = pt1.getY() - pt0.getY();
 			auto dx2 = pt2.getX() - pt0.getX();
 			auto dy2 = pt2.getY() - pt0.getY();
-			return ((dx1 * dy2 - dx2 * dy1) > 0);
+			auto det = dx1 * dy2 - dx2 * dy1;
+			if( det == 0 ) // same direction (or identical to the pivot point): closest first
+				return dx1*dx1 + dy1*dy1 < dx2*dx2 + dy2*dy2;
+			return det > 0;
 		}
 	);
 	return out;
@@ -11670,44 +11673,32 @@ convexHull( const std::vector<Point2d_<FPT>>& input )
 // step 2: sort points by angle of lines between the current point and pivot point
 	auto v2 = priv::chull::sortPoints( input, pivot_idx );
 
-	std::stack<size_t> firstPoint;
 	priv::chull::Mystack hull;
 	hull.push( v2[0] );
 	hull.push( v2[1] );
-	hull.push( v2[2] );
-
-	firstPoint.push( 0 );
-	firstPoint.push( 1 );
 
 // step 3: iterate
-	size_t idx1 = 1;
-	size_t idx2 = 2;
-	size_t idx3 = 3;
-	do
+	for( size_t i=2; i<v2.size(); i++ )
 	{
-//		HOMOG2D_LOG( "** loop start, idx1=" << idx1 << ", idx2=" << idx2  << ", idx3=" << idx3 << ", hull " << hull.getVect() );
-		auto p = input.at( v2[idx1] );
-		auto q = input.at( v2[idx2] );
-		auto r = input.at( v2[idx3] );
-		auto orient = priv::chull::orientation( p, q, r );
-//		HOMOG2D_LOG( "considering pts: " << v2[idx1] << "," << v2[idx2] << "," << v2[idx3] << ": or = " << orient );
-		if( orient != 1 )
-		{
-			hull.push( v2[idx3] );
-			idx1 = idx2;
-			idx2 = idx3;
-			idx3++;
-			firstPoint.push( idx1 );
-		}
-		else
+		const auto& r = input.at( v2[i] );
+		bool addPoint = true;
+		while( hull.size() > 1 )
 		{
+			const auto& q = input.at( hull.getVect()[ hull.size()-1 ] );
+			const auto& p = input.at( hull.getVect()[ hull.size()-2 ] );
+			auto orient = priv::chull::orientation( p, q, r );
+			if( orient == -1 )
+				break;
+			if( orient == 0 && priv::sqDist( p, r ) <= priv::sqDist( p, q ) ) // colinear or identical points: only keep the farthest one
+			{
+				addPoint = false;
+				break;
+			}
 			hull.pop();
-			idx2=idx1; // idx3 stays the same
-			firstPoint.pop();
-			idx1 = firstPoint.top();
 		}
+		if( addPoint )
+			hull.push( v2[i] );
 	}
-	while( idx3 < v2.size() );
 
 // final step: copy hull indexes to vector of points
 	const auto v = hull.getVect();
-- 
2.43.0


From 71793d95dfb56d79a21abc7ebc24121fdc42ba0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:20 +0000
Subject: [PATCH 23/47] fix: nearest and farthest points when the container
 starts with several points equal to the query point

---
 homog2d.hpp | 41 ++++++++++++++++-------------------------
 1 file changed, 16 insertions(+), 25 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 4d518b4..96a5320 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11203,22 +11203,15 @@ findPoint(
 		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
 			<< " points, minimum is 2" );
 
-	decltype( priv::sqDist( qpt, qpt ) ) resDist;
-	size_t startIdx = 1;
+// initialize with the first point that is different from the query point
 	size_t resIdx = 0;
-
-// if point is the first one of the container, then
-// initialize with the second one
-	if( cont[0] == qpt )
-	{
-		startIdx++;
+	while( resIdx < cont.size() && cont[resIdx] == qpt )
 		resIdx++;
-		resDist = priv::sqDist( qpt, cont[1] );
-	}
-	else // initialize with first point
-	{
-		resDist = priv::sqDist( qpt, cont[0] );
-	}
+	if( resIdx == cont.size() )
+		HOMOG2D_THROW_ERROR_1( "all the points of container are equal to the query point" );
+
+	size_t startIdx = resIdx+1;
+	auto resDist = priv::sqDist( qpt, cont[resIdx] );
 
 	for( size_t i=startIdx; i<cont.size(); i++ )
 	{
@@ -11281,19 +11274,17 @@ findNearestFarthestPoint( const Point2d_<FPT>& pt, const T& cont )
 		HOMOG2D_THROW_ERROR_1( "container holds " << cont.size() \
 			<< " points, minimum is 2" );
 
-	auto maxDist = priv::sqDist( pt, cont[0] );
-	auto minDist = maxDist;
+// initialize with the first point that is different from the query point
 	size_t idxMin = 0;
-	size_t idxMax = 0;
-	size_t startIdx = 1;
-	if( pt == cont[0] )
-	{
+	while( idxMin < cont.size() && cont[idxMin] == pt )
 		idxMin++;
-		idxMax++;
-		startIdx++;
-		maxDist = priv::sqDist( pt, cont[1] );
-		minDist = maxDist;
-	}
+	if( idxMin == cont.size() )
+		HOMOG2D_THROW_ERROR_1( "all the points of container are equal to the query point" );
+
+	size_t idxMax   = idxMin;
+	size_t startIdx = idxMin+1;
+	auto maxDist = priv::sqDist( pt, cont[idxMin] );
+	auto minDist = maxDist;
 	for( size_t i=startIdx; i<cont.size(); i++ )
 	{
 		if( pt != cont[i] )
-- 
2.43.0


From 0d1f6d9baf1fb4ca3bb80a93abb9ef39d127edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:56 +0000
Subject: [PATCH 24/47] fix: getLine( Circle, Circle ) could not be called as
 documented

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 96a5320..bf4e553 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10803,9 +10803,9 @@ getSegment( const T1& c1, const T2& c2 )
 }
 
 /// Free function, returns line between two circle centers
-template<typename FPT1,typename FPT2,typename FPT3>
+template<typename FPT1,typename FPT2>
 Line2d_<FPT1>
-getLine( const Circle_<FPT2>& c1, const Circle_<FPT3>& c2 )
+getLine( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 {
 	return Line2d_<FPT1>( c1.center(), c2.center() );
 }
-- 
2.43.0


From 050f90fcaf77718c4461ca85277cfdcc0f1b6c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:42 +0000
Subject: [PATCH 25/47] fix: tangent segments of two circles, one being inside
 the other

---
 homog2d.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index bf4e553..ca9c29e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10923,6 +10923,10 @@ getTanSegs( const Circle_<FPT1>& c1, const Circle_<FPT2>& c2 )
 		std::swap( cA, cB );
 
 	auto h = dist( cA.center(), cB.center() );
+#ifndef HOMOG2D_NOCHECKS
+	if( h <= cA.radius() - cB.radius() )
+		HOMOG2D_THROW_ERROR_1( "no tangent segments, one circle is inside the other: c1=" << c1 << " c2=" << c2 );
+#endif
 
 	auto theta = homog2d_asin( ( cA.radius() - cB.radius() ) / h ) ;
 	auto hcost = h * homog2d_cos(theta);
-- 
2.43.0


From a6133671bf33d8938f384242de55128f0e65032f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:14 +0000
Subject: [PATCH 26/47] fix: reduction of polylines, similar angles on each
 side of PI

---
 homog2d.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ca9c29e..fa123d4 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -7426,7 +7426,10 @@ PolylineBase<PLT,FPT>::p_minimizePL( PolylineBase<PLT,FPT>& pl, size_t istart, s
 		auto a1 = std::atan2( vx1, vy1 );
 		auto a2 = std::atan2( vx2, vy2 );
 
-		if( homog2d_abs(a1-a2) < thr::nullAngleValue() )
+		auto diff = homog2d_abs(a1-a2);
+		if( diff > M_PI )          // so that angles close to PI and close to -PI are considered as similar
+			diff = 2.*M_PI - diff;
+		if( diff < thr::nullAngleValue() )
 			ptset.push_back( i );
 	}
 
-- 
2.43.0


From c48dde6b97f74a1d7a06b11bcd80c22fc3fdb39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 27/47] fix: SVG path, separators at the end of the string

---
 homog2d.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index fa123d4..d8250d5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12657,7 +12657,7 @@ std::string
 getNextElem( const std::string& str, std::string::const_iterator& it )
 {
 	std::string out;
-	while( *it == ' ' || *it == ',' ) // skip spaces and commas
+	while( it < str.cend() && ( *it == ' ' || *it == ',' ) ) // skip spaces and commas
 		it++;
 
 	if( it >= str.cend() )
@@ -12910,6 +12910,8 @@ parsePath( const char* s )
 	{
 		auto e = getNextElem( str, it );
 //		HOMOG2D_LOG( "parsing element -" << e << "- #=" << e.size() );
+		if( e.empty() )   // only trailing separators left
+			break;
 
 		if( e.size() == 1 && !isDigit(e[0]) ) // we have a command !
 		{
-- 
2.43.0


From d7755d68272d321b35bbbf2ea89dbcc9a4d9c46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 28/47] fix: SVG path, values separated only by a sign or a
 decimal point

---
 homog2d.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index d8250d5..807efe4 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12670,8 +12670,12 @@ getNextElem( const std::string& str, std::string::const_iterator& it )
 	}
 	else
 	{
-		while( isDigit(*it) && it < str.cend() )
+		while( it < str.cend() && isDigit(*it) )
 		{
+			if( !out.empty() && *it == '-' )                               // a sign or a second decimal
+				break;                                                     // point starts the next value
+			if( *it == '.' && out.find( '.' ) != std::string::npos )
+				break;
 			out.push_back( *it );
 			it++;
 		}
-- 
2.43.0


From c24c901abd66211ca595bf45f8504e4e2415b7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 29/47] fix: SVG path, current point after a close command

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 807efe4..672d763 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12924,6 +12924,8 @@ parsePath( const char* s )
 
 			mode = getCommand( e[0] );
 			HOMOG2D_LOG( "command=" << e[0] );
+			if( mode._command == 'Z' && !vout[idx].empty() )    // after closing, the current point
+				values._previousPt = vout[idx].front();         // is the first one of the subpath
 			if( !svgPathCommandIsAllowed(mode._command) )
 				HOMOG2D_THROW_ERROR_1( "SVG path command -" << mode._command << "- not handled" );
 
-- 
2.43.0


From de9e596dea333383684ea787ce532f44ac578df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 30/47] fix: SVG path, value after a close command

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 672d763..a65f01c 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12938,6 +12938,8 @@ parsePath( const char* s )
 		}
 		else // not a command, but a value
 		{
+			if( mode._nbValues == 0 )
+				HOMOG2D_THROW_ERROR_1( "SVG path command: unexpected value -" << e << "- after command " << mode._command );
 //			HOMOG2D_LOG( "process value, values size=" << values.size() );
 			if( values.size() == (size_t)mode._nbValues ) // already got enough values
 				values.storeValues( vout[idx], mode );
-- 
2.43.0


From 9ef84f1311fe8b36f3fe36f8fd6a7ed71f47ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:58 +0000
Subject: [PATCH 31/47] fix: SVG import, element with an empty 'points'
 attribute

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a65f01c..37bd844 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13055,8 +13055,8 @@ importSvgPoints( const tinyxml2::XMLElement& e )
 	auto pts_str = svgp::getAttribString( "points", e );
 	auto vec_pts = svgp::parsePoints( pts_str );
 
-	if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
-		vec_pts.pop_back();                  //  point, remove last point
+	if( vec_pts.size() > 1 && vec_pts.front() == vec_pts.back() ) // if first point equal to last
+		vec_pts.pop_back();                                       //  point, remove last point
 
 	return vec_pts;
 }
-- 
2.43.0


From ee0d8e5154d83e99ac4fcf48a55e50196acb5bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:59 +0000
Subject: [PATCH 32/47] fix: SVG import, ellipse without 'transform' attribute

---
 homog2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 37bd844..7c770e5 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13160,11 +13160,15 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto y  = svgp::getAttribValue( e, "cy", n );
 				auto rx = svgp::getAttribValue( e, "rx", n );
 				auto ry = svgp::getAttribValue( e, "ry", n );
-				auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
 				auto ell = EllipseD( x, y, rx, ry );
-
-				auto H = Homogr().addTranslation(-x,-y).addRotation(rot.second).addTranslation(x,y);
-				_vecVar.push_back( H * ell );
+				if( !e.Attribute( "transform" ) )      // this attribute is optional
+					_vecVar.push_back( ell );
+				else
+				{
+					auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
+					auto H = Homogr().addTranslation(-x,-y).addRotation(rot.second).addTranslation(x,y);
+					_vecVar.push_back( H * ell );
+				}
 			}
 			break;
 
-- 
2.43.0


From 32d9d238d6e3fe630f1c14595b8ca3d6c3047424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:59 +0000
Subject: [PATCH 33/47] fix: SVG import, center of the rotation of an ellipse

---
 homog2d.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 7c770e5..989c620 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13166,7 +13166,9 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				else
 				{
 					auto rot = svgp::getEllipseRotateAttr( svgp::getAttribString( "transform", e ) );
-					auto H = Homogr().addTranslation(-x,-y).addRotation(rot.second).addTranslation(x,y);
+					auto xr = rot.first.getX();
+					auto yr = rot.first.getY();
+					auto H = Homogr().addTranslation(-xr,-yr).addRotation(rot.second).addTranslation(xr,yr);
 					_vecVar.push_back( H * ell );
 				}
 			}
-- 
2.43.0


From bca848a4f68e127e9f4d8238066616d4a97d8b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:59 +0000
Subject: [PATCH 34/47] fix: SVG import, ellipse higher than wide

---
 homog2d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 989c620..a5d8946 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13160,7 +13160,7 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 				auto y  = svgp::getAttribValue( e, "cy", n );
 				auto rx = svgp::getAttribValue( e, "rx", n );
 				auto ry = svgp::getAttribValue( e, "ry", n );
-				auto ell = EllipseD( x, y, rx, ry );
+				auto ell = rx < ry ? EllipseD( x, y, ry, rx, M_PI/2. ) : EllipseD( x, y, rx, ry );
 				if( !e.Attribute( "transform" ) )      // this attribute is optional
 					_vecVar.push_back( ell );
 				else
-- 
2.43.0


From 38cd2d94fb237fbb67d20b59c8c7cddafdbf4d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:49 +0000
Subject: [PATCH 35/47] fix: getBB() of a vector of variants, elements without
 a bounding box

---
 homog2d.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a5d8946..a6f684a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -10401,14 +10401,16 @@ getBB_CommonType( const std::vector<CommonType_<FPT>>& v_var )
 		try
 		{
 			ppair = std::visit( fct::PtPairFunct{}, elem );
+			vpts.push_back( ppair.first );
+			vpts.push_back( ppair.second );
 		}
 		catch( const std::exception& err )
 		{
 			HOMOG2D_LOG_WARNING( "unable to compute point pair\n -msg=" << err.what() );
 		}
-		vpts.push_back( ppair.first );
-		vpts.push_back( ppair.second );
 	}
+	if( vpts.empty() )
+		HOMOG2D_THROW_ERROR_1( "unable to compute bounding box, no element has one" );
 	return FRect_<FPT>( getBB_Points( vpts ) );
 }
 
-- 
2.43.0


From 7ea595e76b6805385eb78d677a47e082e1dcbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:27 +0000
Subject: [PATCH 36/47] fix: getCvPtd() and getCvPtf() truncated the
 coordinates to integers

---
 homog2d.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index a6f684a..2090af2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -4491,8 +4491,8 @@ public:
 	}
 
 	cv::Point2i getCvPti() const { return impl_getPt<cv::Point2i>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
-	cv::Point2i getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2d getCvPtd() const { return impl_getPt<cv::Point2d>( detail::BaseHelper<typename typ::IsPoint>() ); }
+	cv::Point2f getCvPtf() const { return impl_getPt<cv::Point2f>( detail::BaseHelper<typename typ::IsPoint>() ); }
 
 /// Constructor: build point or line from a single OpenCv point.
 	template<typename T>
-- 
2.43.0


From 32531ee9ee349873f419fc398f64519038e881ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:27 +0000
Subject: [PATCH 37/47] fix: assigning a cv::Mat to a homography left its
 cached data and normalization stale

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 2090af2..c7e61f2 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -11794,6 +11794,8 @@ Hmatrix_<W,FPT>::operator = ( const cv::Mat& mat )
 			break;
 		default: assert(0);
 	}
+	detail::Matrix_<FPT>::_isNormalized = false;
+	_hasChanged = true;
 	return *this;
 }
 #endif // HOMOG2D_USE_OPENCV
-- 
2.43.0


From 99e32ff0821f244aa4dd493aa4e6e347bc736adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:27 +0000
Subject: [PATCH 38/47] fix: building a polyline from an empty boost polygon
 read a missing point

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index c7e61f2..c47feed 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6267,6 +6267,8 @@ this relates to the actual fact that last point is equal to first point.
 	)
 	{
 		const auto& outer = bgpol.outer();
+		if( outer.empty() )
+			return;
 		bool isClosed = false;
 		auto ptf = outer.front();
 		auto ptb = outer.back();
-- 
2.43.0


From b0ce619e4938b90862205c62c96a57a8e5389c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:27 +0000
Subject: [PATCH 39/47] fix: converting an intersection result to another
 number type failed when there is no intersection

---
 homog2d.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index c47feed..61ae321 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2571,7 +2571,8 @@ class Intersect<Inters_1,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_1,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			_ptIntersect   = other._ptIntersect;
+			if( other() )
+				_ptIntersect = other.get();
 		}
 
 	private:
@@ -2598,9 +2599,12 @@ class Intersect<Inters_2,FPT>: public IntersectCommon
 		Intersect( const Intersect<Inters_2,FPT2>& other )
 			: IntersectCommon( other )
 		{
-			auto ppts = other.get();
-			_ptIntersect_1 = ppts.first;
-			_ptIntersect_2 = ppts.second;
+			if( other() )
+			{
+				auto ppts = other.get();
+				_ptIntersect_1 = ppts.first;
+				_ptIntersect_2 = ppts.second;
+			}
 		}
 		size_t size() const { return _doesIntersect?2:0; }
 
-- 
2.43.0


From 4a9274c89562c83a863e56687a768a9355d5490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:27 +0000
Subject: [PATCH 40/47] fix: streaming multiple intersections, points written
 to std::cout

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index 61ae321..39a4cad 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -2673,7 +2673,8 @@ public:
 	operator << ( std::ostream& f, const IntersectM& i )
 	{
 		f << "IntersectM: size=" << i.size() << '\n';
-		priv::printVector( i._vecInters );
+		for( const auto& pt: i._vecInters )
+			f << pt << '\n';
 		return f;
 	}
 };
-- 
2.43.0


From 7b3d868daec0bc95fc6ada704d4022e1db3668cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:18 +0000
Subject: [PATCH 41/47] fix: point inside polygon, only the first reference
 segment was considered

---
 homog2d.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 39a4cad..c72f101 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9507,6 +9507,7 @@ LPBase<LP,FPT>::impl_isInsidePoly( const base::PolylineBase<PTYPE,T>& poly, cons
 		{
 			Segment_<HOMOG2D_INUMTYPE> seg_ref( *this, seg_bb[i].getCenter() );
 
+			tooClose = false;
 			auto poly_pts = poly.getPts();
 			for( size_t j=0; j<poly_pts.size() && !tooClose; j++  )   // make sure that every point of the polyline is not on the reference segment
 			{
-- 
2.43.0


From 078447a554ccde3e157326bde29d5f1efe198ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:05 +0000
Subject: [PATCH 42/47] fix: comparison of almost horizontal lines, opposite
 normals

---
 homog2d.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index c72f101..c37b1db 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -9135,7 +9135,8 @@ LPBase<LP,FPT>::impl_op_equal( const LPBase<LP,FPT>& other, const detail::BaseHe
 	if( !this->isParallelTo( other ) )
 		return false;
 
-	if( std::fabs( _v[2] - other._v[2] ) > thr::nullDistance() )
+	const auto dot = _v[0] * other._v[0] + _v[1] * other._v[1]; // negative if the normals have opposite directions (lines almost horizontal)
+	if( std::fabs( dot < 0. ? _v[2] + other._v[2] : _v[2] - other._v[2] ) > thr::nullDistance() )
 		return false;
 
 	return true;
-- 
2.43.0


From d925e0e24250f1978937450c2df5145b644ba959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:05 +0000
Subject: [PATCH 43/47] fix: normalization of closed polylines whose smallest
 point is repeated

---
 homog2d.hpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index c37b1db..ca9300a 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -6741,6 +6741,7 @@ Sfinae should resolve ONLY for CPolyline
 
 private:
 	void p_normalizePoly() const;
+	void p_normalizeRepeated() const;
 
 public:
 	template<typename T>
@@ -7702,6 +7703,7 @@ base::PolylineBase<PLT,FPT>::p_normalizePoly() const
 				minpos = std::min_element( _plinevec.begin(), _plinevec.end() );
 				std::rotate( _plinevec.begin(), minpos, _plinevec.end() );
 			}
+			p_normalizeRepeated();
 		}
 		else
 		{
@@ -7712,6 +7714,32 @@ base::PolylineBase<PLT,FPT>::p_normalizePoly() const
 	}
 }
 
+/// Private function used by p_normalizePoly() for closed polylines: if the smallest point appears more than
+/// once, then the starting point is ambiguous: keep the lexicographically smallest sequence, in both directions
+template<typename PLT,typename FPT>
+void
+base::PolylineBase<PLT,FPT>::p_normalizeRepeated() const
+{
+	const auto ptmin = _plinevec[0];
+	auto isMin = [&ptmin](const Point2d_<FPT>& pt){ return !( ptmin < pt ); };
+	if( std::none_of( std::next( _plinevec.begin() ), _plinevec.end(), isMin ) )
+		return;
+
+	auto best = _plinevec;
+	for( int dir=0; dir<2; dir++ )
+	{
+		for( size_t i=0; i<size(); i++ )
+		{
+			std::rotate( _plinevec.begin(), std::next( _plinevec.begin() ), _plinevec.end() );
+			if( isMin( _plinevec[0] ) )
+				if( std::lexicographical_compare( _plinevec.begin(), _plinevec.end(), best.begin(), best.end() ) )
+					best = _plinevec;
+		}
+		std::reverse( _plinevec.begin(), _plinevec.end() );
+	}
+	_plinevec = best;
+}
+
 } // namespace base
 
 //------------------------------------------------------------------
-- 
2.43.0


From 6de570154e0f591dff0c0961e0d95ec2639d85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:00 +0000
Subject: [PATCH 44/47] fix: rectangle intersections, points differing by
 rounding were duplicated

---
 homog2d.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index ca9300a..e836782 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -3185,10 +3185,9 @@ private:
 			{
 				auto vpts = inters.get();
 				assert( vpts.size() < 3 );
-				if( vpts.size() > 0 )
-					pts.insert( vpts[0] );
-				if( vpts.size() > 1 )
-					pts.insert( vpts[1] );
+				for( const auto& pt: vpts )
+					if( std::find( pts.begin(), pts.end(), pt ) == pts.end() ) // no point equal to that one, operator < being strict
+						pts.insert( pt );
 			}
 		}
 		detail::IntersectM<FPT> out; // convert std::set to output container
-- 
2.43.0


From af05e50ac22149f005511784549a84d81f020516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:56 +0000
Subject: [PATCH 45/47] fix: SVG path import, values with an exponent or a plus
 sign and line breaks were rejected

---
 homog2d.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/homog2d.hpp b/homog2d.hpp
index e836782..f278e1e 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12697,25 +12697,36 @@ std::string
 getNextElem( const std::string& str, std::string::const_iterator& it )
 {
 	std::string out;
-	while( it < str.cend() && ( *it == ' ' || *it == ',' ) ) // skip spaces and commas
+	while( it < str.cend() && ( std::isspace( static_cast<unsigned char>(*it) ) || *it == ',' ) ) // skip spaces and commas
 		it++;
 
 	if( it >= str.cend() )
 		return out;         // return empty string
 
-	if( !isDigit(*it) )        // alpha character
+	if( !isDigit(*it) && *it != '+' )        // alpha character
 	{
 		out.push_back( *it );
 		it++;
 	}
 	else
 	{
-		while( it < str.cend() && isDigit(*it) )
+		auto isSign = []( char c ) { return c == '-' || c == '+'; };
+		auto isExp  = []( char c ) { return c == 'e' || c == 'E'; };
+		while( it < str.cend() && ( isDigit(*it) || isSign(*it) || isExp(*it) ) )
 		{
-			if( !out.empty() && *it == '-' )                               // a sign or a second decimal
-				break;                                                     // point starts the next value
-			if( *it == '.' && out.find( '.' ) != std::string::npos )
+			if( !out.empty() && isSign(*it) && !isExp(out.back()) )        // a sign (not of an exponent)
+				break;                                                     // or a second decimal point
+			if( *it == '.' && out.find_first_of( ".eE" ) != std::string::npos ) // starts the next value
 				break;
+			if( isExp(*it) )
+			{
+				auto next = std::next(it);
+				if( next < str.cend() && isSign(*next) )
+					next++;
+				if( next >= str.cend() || !std::isdigit( static_cast<unsigned char>(*next) )
+					|| !std::isdigit( static_cast<unsigned char>(out.back()) ) || out.find_first_of( "eE" ) != std::string::npos )
+					break;
+			}
 			out.push_back( *it );
 			it++;
 		}
-- 
2.43.0


From f7482bf907f2b1914a59678fd4b87fd9e785675c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:16:31 +0000
Subject: [PATCH 46/47] fix: SVG import of points separated by line breaks or
 several spaces threw

---
 homog2d.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index f278e1e..6e8349f 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -12663,9 +12663,14 @@ parsePoints( const char* pts )
 	std::string s(pts);
 //	std::cout << "processing " << s << '\n';
 //	trimString( s );
+	for( auto& c: s )              // line breaks and tabs are separators too
+		if( std::isspace( static_cast<unsigned char>(c) ) )
+			c = ' ';
 	auto v1 = tokenize( s, ' ' );
 	for( const auto& pt: v1 )
 	{
+		if( pt.empty() )           // several consecutive separators
+			continue;
 		auto v2 = tokenize( pt, ',' );
 		if( v2.size() != 2 )
 			throw "h2d:img::svg: invalid point format in importing svg element: " + s;
-- 
2.43.0


From 2d761fdf43ca643718ef8d9b20a0fb200c431378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:07 +0000
Subject: [PATCH 47/47] fix: SVG import: a move without a line gave an empty
 polyline

---
 homog2d.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/homog2d.hpp b/homog2d.hpp
index 6e8349f..42fed97 100644
--- a/homog2d.hpp
+++ b/homog2d.hpp
@@ -13192,6 +13192,8 @@ Visitor::VisitExit( const tinyxml2::XMLElement& e )
 					for( auto vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 //					for( const auto& vec_pts: vec_vec_pts ) // we need a copy so we may remove last point if equal to first
 					{
+						if( vec_pts.size() < 2 ) // a move that is not followed by a line
+							continue;            // draws nothing
 						if( vec_pts.front() == vec_pts.back() ) // if first point equal to last
 							vec_pts.pop_back();                  //  point, remove last point
 
-- 
2.43.0

