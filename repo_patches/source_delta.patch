From ca53e5c661e60dc3b66e813e484e98329c707287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 01/76] fix: fill dynamically sized matrices from Data

The loops ran to the template sizes, which are -1 for run time sized
matrices, so that assigning Data to one did nothing.
---
 TooN/internal/data.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/data.hh b/TooN/internal/data.hh
index c8420a3..5c033df 100644
--- a/TooN/internal/data.hh
+++ b/TooN/internal/data.hh
@@ -43,8 +43,8 @@ namespace TooN{
 		void eval(Matrix<R, C, T, B>& m) const
 		{
 			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);
-			for(int r=0, n=0; r < R; r++)
-				for(int c=0; c < C; c++, n++)
+			for(int r=0, n=0; r < m.num_rows(); r++)
+				for(int c=0; c < m.num_cols(); c++, n++)
 					m[r][c] = vals[n];
 		}
 
-- 
2.43.0


From 7cab09df93ea4af8475d15430b1dc2ae44317790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 02/76] fix: allow Fill on vectors of size 1

The first element was checked as if it were the second one, so filling a
vector with exactly one element was reported as overfilling it.
---
 TooN/internal/comma.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index c6e2462..b7be049 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -73,7 +73,7 @@ namespace Internal
 
 		VectorFiller<1, Size, P, B> operator=(const P& p)
 		{
-			Internal::CheckOverFill<1, Size>::check(v.size());
+			Internal::CheckOverFill<0, Size>::check(v.size());
 			v[0] = p;
 			return VectorFiller<1, Size, P, B>(v, 0);
 		}
-- 
2.43.0


From 83f3bf75d4406fe64c443d9b724f46fd1656f220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 03/76] fix: Fill on matrices with a single column

The second element went to column 1 of row 0, outside the matrix, and
1x1 matrices were reported as underfilled.
---
 TooN/internal/comma.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/internal/comma.hh b/TooN/internal/comma.hh
index b7be049..ec7dff4 100644
--- a/TooN/internal/comma.hh
+++ b/TooN/internal/comma.hh
@@ -133,6 +133,9 @@ namespace Internal
 		{
 			Internal::CheckMOverFill<0, R, C>::check(m.num_rows() * m.num_cols());
 			m[0][0] = p;
+			//A matrix with one column has its next element on the next row.
+			if(m.num_cols() == 1)
+				return MatrixFiller<1, R, C, P, B>(m, 0, 1, 0);
 			return MatrixFiller<1, R, C, P, B>(m, 0, 0, 1);
 		}
 	};
-- 
2.43.0


From d4f6fe526588ebe7e1f1623e04f9768b8ad7e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:38 +0000
Subject: [PATCH 04/76] fix: detect bad slices whose start plus length
 overflows

slice(INT_MAX, 1) was accepted because the sum wrapped around.
---
 TooN/internal/slice_error.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 9bba04d..882526e 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -121,9 +121,11 @@ namespace Internal
 					std::abort();
 				}
 			#endif
-			if( N<Start>::n(start) + N<Length>::n(length) > N<Size>::n(size) || 
-			   N<Start>::n(start) < 0 ||
-			   N<Length>::n(length) < 0)
+			//Written so that the sum of the start and length can not overflow.
+			if( N<Start>::n(start) < 0 ||
+			   N<Length>::n(length) < 0 ||
+			   N<Length>::n(length) > N<Size>::n(size) ||
+			   N<Start>::n(start) > N<Size>::n(size) - N<Length>::n(length))
 			{
 				#ifdef TOON_TEST_INTERNALS
 					throw Internal::SliceError();
-- 
2.43.0


From 1b57e2d863eb672916b6f59ef44f603d5b792647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:31 +0000
Subject: [PATCH 05/76] fix: add a scaled Identity in the precision of the
 result

The scale was converted to the precision of the source matrix, so
that adding Identity*0.5 to an integer matrix added nothing.
---
 TooN/internal/objects.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 1518542..584c876 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -244,7 +244,7 @@ template<int R, int C, class P, class B, class Precision> struct Operator<Intern
 					mm[r][c] = m[r][c];
 
 		for(int i=0; i < m.num_rows(); i++)
-				mm[i][i] += (P)s;
+				mm[i][i] += (P1)s;
 	}
 	///@}
 
-- 
2.43.0


From 80ad647d8015ccb228a397979569f583388879f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:38 +0000
Subject: [PATCH 06/76] fix: divide Ones and Identity by a scalar without
 truncation

The reciprocal of the divisor was converted to the type of the dividend,
so that for instance Ones*3/2.0 was zero.
---
 TooN/internal/objects.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index 584c876..eac0f86 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -688,11 +688,24 @@ operator*(const Operator<Op<Pl> >& l, const Pr&  r)
 	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type>(r); 
 }
 
+namespace Internal
+{
+	///@internal
+	///@brief A scale factor which divides by its value instead of multiplying by it.
+	///@ingroup gInternal
+	template<class P> struct Divisor
+	{
+		const P& p; ///<Value to divide by.
+		Divisor(const P& p_):p(p_){}
+	};
+	template<class Lhs, class P> typename DivideType<Lhs, P>::type operator*(const Lhs& l, const Divisor<P>& d){return l/d.p;} ///<Divides something by the Divisor.
+}
+
 template<template<class> class Op, class Pl, class Pr> 
 Operator<Op<typename Internal::DivideType<Pl, Pr>::type > >
 operator/(const Operator<Op<Pl> >& l, const Pr&  r)
 {
-	return l.template scale_me<typename Internal::MultiplyType<Pl, Pr>::type, Pl>(static_cast<typename Internal::DivideType<Pl,Pr>::type>(1)/r); 
+	return l.template scale_me<typename Internal::DivideType<Pl, Pr>::type>(Internal::Divisor<Pr>(r)); 
 }
 
 
-- 
2.43.0


From 7e9c40ef9d56eb3788a63c689a9eb1bc35a7ee76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 07/76] fix: views of resizable vectors have the vector's size

---
 TooN/internal/vbase.hh | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/TooN/internal/vbase.hh b/TooN/internal/vbase.hh
index 9ceb456..3c1af4e 100644
--- a/TooN/internal/vbase.hh
+++ b/TooN/internal/vbase.hh
@@ -208,38 +208,43 @@ template<int Size, typename Precision, int Stride, typename Mem> struct GenericV
 	}
 		
 	//Other slices below
-	const Matrix<1, Size, const Precision, Slice<1,Stride> > as_row() const{
-		return Matrix<1, Size, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	
+	//A view of a resizable vector can not be resized: it has the size
+	//which the vector had when the view was made.
+	static const int ViewSize = (Size == Resizable)?Dynamic:Size;
+
+	const Matrix<1, ViewSize, const Precision, Slice<1,Stride> > as_row() const{
+		return Matrix<1, ViewSize, const Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	Matrix<1, Size, Precision, Slice<1,Stride> > as_row(){
-		return Matrix<1, Size, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
+	Matrix<1, ViewSize, Precision, Slice<1,Stride> > as_row(){
+		return Matrix<1, ViewSize, Precision, Slice<1,Stride> >(data(), 1, size(), 1, stride(), Slicing());
 	}
 
-	const Matrix<Size, 1, const Precision, Slice<Stride,1> > as_col() const{
-		return Matrix<Size, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	const Matrix<ViewSize, 1, const Precision, Slice<Stride,1> > as_col() const{
+		return Matrix<ViewSize, 1, const Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	Matrix<Size, 1, Precision, Slice<Stride,1> > as_col(){
-		return Matrix<Size, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
+	Matrix<ViewSize, 1, Precision, Slice<Stride,1> > as_col(){
+		return Matrix<ViewSize, 1, Precision, Slice<Stride,1> >(data(), size(), 1, stride(), 1, Slicing());
 	}
 
-	typedef Vector<Size, Precision, SliceBase> as_slice_type;
+	typedef Vector<ViewSize, Precision, SliceBase> as_slice_type;
 	
-	Vector<Size, Precision, SliceBase> as_slice(){                 
-		return Vector<Size, Precision, SliceBase>(data(), size(), stride(), Slicing());         
+	Vector<ViewSize, Precision, SliceBase> as_slice(){                 
+		return Vector<ViewSize, Precision, SliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	const Vector<Size, const Precision, ConstSliceBase> as_slice() const {                 
-		return Vector<Size, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
+	const Vector<ViewSize, const Precision, ConstSliceBase> as_slice() const {                 
+		return Vector<ViewSize, const Precision, ConstSliceBase>(data(), size(), stride(), Slicing());         
 	}
 
-	DiagonalMatrix<Size,Precision, SliceBase> as_diagonal() {
-		return DiagonalMatrix<Size, Precision, SliceBase> (data(), size(), stride(), Slicing());
+	DiagonalMatrix<ViewSize,Precision, SliceBase> as_diagonal() {
+		return DiagonalMatrix<ViewSize, Precision, SliceBase> (data(), size(), stride(), Slicing());
 	}
 
-	const DiagonalMatrix<Size,const Precision, ConstSliceBase> as_diagonal() const {
-		return DiagonalMatrix<Size, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
+	const DiagonalMatrix<ViewSize,const Precision, ConstSliceBase> as_diagonal() const {
+		return DiagonalMatrix<ViewSize, const Precision, ConstSliceBase> (data(), size(), stride(), Slicing());
 	}
 
 };
-- 
2.43.0


From 975330778f47b9bb614790087c55f7943e82593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 08/76] fix: assigning a resizable vector to itself keeps its
 elements

---
 TooN/internal/allocator.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 4d0735b..52e9ce0 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -348,6 +348,11 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 
 		void try_destructive_resize(int newsize)
 		{
+			//The source may refer to this vector's own elements 
+			//(as in v=v), so leave them alone if they all stay.
+			if(newsize == size())
+				return;
+
 			numbers.resize(newsize);
 			debug_initialize(data(), newsize);
 		}
-- 
2.43.0


From 2b4ac80620a0aab90e3771a244eaefd1029baf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 09/76] fix: negate read-only views

---
 TooN/internal/operators.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 07c3837..488fb5f 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -191,7 +191,7 @@ struct Operator<Internal::VNegate<S, P, A> > {
 
 // Negation -Vector
 template <int S, typename P, typename A>
-Vector<S, P> operator-(const Vector<S,P,A> & v){
+Vector<S, typename Internal::Clean<P>::type> operator-(const Vector<S,P,A> & v){
 	return Operator<Internal::VNegate<S,P,A> >(v);
 }
 
@@ -300,7 +300,7 @@ struct Operator<Internal::MNegate<R,C, P, A> > {
 
 // Negation -Matrix
 template <int R, int C, typename P, typename A>
-Matrix<R, C, P> operator-(const Matrix<R,C,P,A> & v){
+Matrix<R, C, typename Internal::Clean<P>::type> operator-(const Matrix<R,C,P,A> & v){
 	return Operator<Internal::MNegate<R,C,P,A> >(v);
 }
 
-- 
2.43.0


From 628c11d4fd7f4dbc0e4bc3bdc2b60800bde229a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:25 +0000
Subject: [PATCH 10/76] fix: do not convert the matrix to the scalar's type in
 scalar * matrix

---
 TooN/internal/operators.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/operators.hh b/TooN/internal/operators.hh
index 488fb5f..2cf74d5 100644
--- a/TooN/internal/operators.hh
+++ b/TooN/internal/operators.hh
@@ -596,7 +596,7 @@ struct Operator<Internal::ApplyScalarML<R,C,P1,B1,P2,Op> > {
 	void eval(Matrix<R0,C0,P0,Ba0>& m) const {
 		for(int r=0; r<m.num_rows(); r++){
 			for(int c=0; c<m.num_cols(); c++){
-				m(r,c)= Op::template op<P0,P1,P2> (lhs,rhs(r,c));
+				m(r,c)= Op::template op<P0,P2,P1> (lhs,rhs(r,c));
 			}
 		}
 	}
-- 
2.43.0


From c70acbeeeb6dcb719bbd5ff1e5446f5007e5cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 11/76] fix: data pointer of an empty resizable vector

---
 TooN/internal/allocator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 52e9ce0..0335b1c 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -314,11 +314,11 @@ template<class Precision> struct VectorAlloc<Resizable, Precision>: public Defau
 	protected:
 
 		Precision* data() {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 		const Precision* data()const  {
-			return &numbers[0];
+			return numbers.data();
 		}
 
 	private:
-- 
2.43.0


From 6e91503a5fd6cc90680f2087d5b9456f8ac95e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 12/76] fix: check the size of the matrix a diagonal matrix is
 assigned to

---
 TooN/internal/diagmatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index a0ec756..7a46c46 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -76,7 +76,8 @@ namespace TooN {
 		///@{
 		template<int R, int C, class P, class B>
 		void eval(Matrix<R,C,P,B>& m) const {
-			SizeMismatch<Size, Size>::test(m.num_rows(), m.num_cols());
+			SizeMismatch<Size, R>::test(my_vector.size(), m.num_rows());
+			SizeMismatch<Size, C>::test(my_vector.size(), m.num_cols());
 			m = Zeros;
 			m.diagonal_slice() = my_vector;
 		}
-- 
2.43.0


From 6f269e8986b27597e34d191877faa0c11f4154c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 13/76] fix: Fill for resizable vectors

---
 TooN/internal/overfill_error.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/internal/overfill_error.hh b/TooN/internal/overfill_error.hh
index 3d83895..7662f2d 100644
--- a/TooN/internal/overfill_error.hh
+++ b/TooN/internal/overfill_error.hh
@@ -62,6 +62,9 @@ template<int N> struct CheckOverFill<N, -1>
 };
 
 
+//Resizable vectors know their size only at run time, too.
+template<int N> struct CheckOverFill<N, Resizable>: public CheckOverFill<N, -1> {};
+
 template<int N, int R, int C, bool IsDynamic=(R==-1||C==-1)> struct CheckMOverFill
 {
 	static void check(int)
-- 
2.43.0


From 9664228c3f6180d217383079c46628faff3ed6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 14/76] fix: subtract unscaled Ones and Identity

---
 TooN/internal/objects.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/objects.h b/TooN/internal/objects.h
index eac0f86..77319c3 100644
--- a/TooN/internal/objects.h
+++ b/TooN/internal/objects.h
@@ -314,6 +314,14 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 			m[i][i] += (P)val;
 	}
 
+	template<int Rows, int Cols, typename P, typename B>
+	void minusequals(Matrix<Rows, Cols, P, B>& m) const
+	{
+		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
+		for(int i=0; i < m.num_rows(); i++)
+			m[i][i] -= (P)val;
+	}
+
 	template <int Rows, int Cols, typename P1, typename B1> 
 	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > add(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
@@ -322,10 +330,10 @@ template<class Pr> struct Operator<Internal::Identity<Pr> > {
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
-	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
+	Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> > rsubtract(const Matrix<Rows,Cols, P1, B1>& m) const
 	{
 		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());
-		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,Precision> >(-val, m, 0);
+		return Operator<Internal::AddIdentity<Rows,Cols,P1,B1,typename Internal::NegType<Precision>::Type> >(-val, m, 0);
 	}
 
 	template <int Rows, int Cols, typename P1, typename B1> 
@@ -509,9 +517,9 @@ template<class P> struct Operator<Internal::Scalars<P> >
 	}
 
 	template <int Size, typename P1, typename B1> 
-	Operator<Internal::ScalarsVector<Size,P1,B1,Precision> > rsubtract(const Vector<Size, P1, B1>& v) const
+	Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> > rsubtract(const Vector<Size, P1, B1>& v) const
 	{
-		return Operator<Internal::ScalarsVector<Size,P1,B1,Precision> >(-s, v, 0);
+		return Operator<Internal::ScalarsVector<Size,P1,B1,typename Internal::NegType<P>::Type> >(-s, v, 0);
 	}
 
 	template <int Size, typename P1, typename B1> 
-- 
2.43.0


From e3f5e00ba6a17d0e2beda229fc8a432165c7fe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:54 +0000
Subject: [PATCH 15/76] fix: slice, negate and invert read-only diagonal
 matrices

---
 TooN/internal/diagmatrix.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/internal/diagmatrix.h b/TooN/internal/diagmatrix.h
index 7a46c46..033fa4d 100644
--- a/TooN/internal/diagmatrix.h
+++ b/TooN/internal/diagmatrix.h
@@ -150,18 +150,18 @@ public:
 	}
 
 	///Return the leading diagonal as a vector.
-	const typename Vector<Size, Precision, Base>::as_slice_type diagonal_slice() const {
+	auto diagonal_slice() const -> decltype(std::declval<const Vector<Size, Precision, Base>&>().as_slice()) {
 		return this->my_vector.as_slice();
 	}
 
-	DiagonalMatrix<Size, Precision> operator-() const
+	DiagonalMatrix<Size, typename std::remove_const<Precision>::type> operator-() const
 	{
 		return -this->my_vector;
 	}
 
-	DiagonalMatrix<Size, Precision> inverse() const
+	DiagonalMatrix<Size, typename std::remove_const<Precision>::type> inverse() const
 	{
-		Vector<Size, Precision> inv(this->my_vector.size());
+		Vector<Size, typename std::remove_const<Precision>::type> inv(this->my_vector.size());
 		for(int i=0; i < inv.size(); i++)
 			inv[i] = 1 / this->my_vector[i];
 		return inv;
-- 
2.43.0


From 188a5ba620ac506c77a66b5164646bb372a96351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 16/76] fix: norm_inf of an empty vector reads no element

---
 TooN/helpers.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index 447bca3..c94a697 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -128,6 +128,8 @@ namespace TooN {
 		using std::abs;
 		using std::max;
 		Precision n = 0;
+		if(v.size() == 0)
+			return n;
 		n = abs(v[0]);
 
 		for(int i=1; i < v.size(); i++)
-- 
2.43.0


From cc302ec7546cd6ff9b69722412b251f9d578c368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 17/76] fix: norms, projection, trace and cross-product matrix
 of read-only views; project for resizable and dynamic sizes

---
 TooN/helpers.h | 51 +++++++++++++++++++++++++-------------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index c94a697..ba136c6 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -35,6 +35,7 @@
 #include <algorithm>
 #include <cmath>
 #include <functional>
+#include <type_traits>
 #include <utility>
 
 #ifndef M_PI
@@ -114,7 +115,7 @@ namespace TooN {
 	template<int Size, class Precision, class Base> inline Precision norm_1(const Vector<Size, Precision, Base>& v)
 	{
 		using std::abs;
-		Precision n = 0;
+		typename std::remove_const<Precision>::type n = 0;
 		for(int i=0; i < v.size(); i++)
 			n += abs(v[i]);
 		return n;
@@ -127,7 +128,7 @@ namespace TooN {
 	{
 		using std::abs;
 		using std::max;
-		Precision n = 0;
+		typename std::remove_const<Precision>::type n = 0;
 		if(v.size() == 0)
 			return n;
 		n = abs(v[0]);
@@ -152,7 +153,7 @@ namespace TooN {
 	///Compute a the unit vector \f$\hat{v}\f$.
 	///@param v \e v
 	///@ingroup gLinAlg
-	template<int Size, class Precision, class Base> inline Vector<Size, Precision> unit(const Vector<Size, Precision, Base> & v)
+	template<int Size, class Precision, class Base> inline Vector<Size, typename std::remove_const<Precision>::type> unit(const Vector<Size, Precision, Base> & v)
 	{
 		using std::sqrt;
 		return TooN::operator*(v,(1/sqrt(v*v)));
@@ -181,8 +182,8 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size-1)+0, Precision> project( const Vector<Size, Precision, Base> & v){
-		static const int Len = (Size==Dynamic?Dynamic:Size-1);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic||Size==Resizable?Dynamic:Size-1)+0, typename std::remove_const<Precision>::type> project( const Vector<Size, Precision, Base> & v){
+		static const int Len = (Size==Dynamic||Size==Resizable?Dynamic:Size-1);
 		return TooN::operator/(v.template slice<0, Len>(0 , v.size() - 1) , v[v.size() - 1]);
 	}
 
@@ -192,9 +193,9 @@ namespace TooN {
 	///@ingroup gLinAlg
 	// Don't remove the +0 in the first template parameter of the return type. It is a work around for a Visual Studio 2010 bug:
 	// https://connect.microsoft.com/VisualStudio/feedback/details/735283/vc-2010-parse-error-in-template-parameters-using-ternary-operator
-	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic?Dynamic:Size+1)+0, Precision> unproject( const Vector<Size, Precision, Base> & v){
-		Vector<(Size==Dynamic?Dynamic:Size+1), Precision> result(v.size()+1);
-		static const int Len = (Size==Dynamic?Dynamic:Size);
+	template<int Size, typename Precision, typename Base> inline Vector<(Size==Dynamic||Size==Resizable?Dynamic:Size+1)+0, typename std::remove_const<Precision>::type> unproject( const Vector<Size, Precision, Base> & v){
+		Vector<(Size==Dynamic||Size==Resizable?Dynamic:Size+1), typename std::remove_const<Precision>::type> result(v.size()+1);
+		static const int Len = (Size==Dynamic||Size==Resizable?Dynamic:Size);
 		result.template slice<0, Len>(0, v.size()) = v;
 		result[v.size()] = 1;
 		return result;
@@ -203,16 +204,16 @@ namespace TooN {
 	/**
        \overload
 	*/
-	template<int R, int C, typename Precision, typename Base> inline Matrix<R-1, C, Precision> project( const Matrix<R,C, Precision, Base> & m){
-        Matrix<R-1, C, Precision> result = m.slice(0,0,R-1,m.num_cols());
+	template<int R, int C, typename Precision, typename Base> inline Matrix<R-1, C, typename std::remove_const<Precision>::type> project( const Matrix<R,C, Precision, Base> & m){
+        Matrix<R-1, C, typename std::remove_const<Precision>::type> result = m.slice(0,0,R-1,m.num_cols());
         for( int c = 0; c < m.num_cols(); ++c ) {
             result.slice(0,c,R-1,1) /= m[R-1][c];
         }
         return result;
     }
 
-    template<int C, typename Precision, typename Base> inline Matrix<-1, C, Precision> project( const Matrix<-1,C, Precision, Base> & m){
-        Matrix<-1, C, Precision> result = m.slice(0,0,m.num_rows()-1,m.num_cols());
+    template<int C, typename Precision, typename Base> inline Matrix<-1, C, typename std::remove_const<Precision>::type> project( const Matrix<-1,C, Precision, Base> & m){
+        Matrix<-1, C, typename std::remove_const<Precision>::type> result = m.slice(0,0,m.num_rows()-1,m.num_cols());
         for( int c = 0; c < m.num_cols(); ++c ) {
             result.slice(0,c,m.num_rows()-1,1) /= m[m.num_rows()-1][c];
         }
@@ -222,15 +223,15 @@ namespace TooN {
 	/**
        \overload
 	*/
-    template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, Precision> unproject( const Matrix<R, C, Precision, Base> & m){
-        Matrix<R+1, C, Precision> result;
-        result.template slice<0,0,R,C>() = m;
+    template<int R, int C, typename Precision, typename Base> inline Matrix<R+1, C, typename std::remove_const<Precision>::type> unproject( const Matrix<R, C, Precision, Base> & m){
+        Matrix<R+1, C, typename std::remove_const<Precision>::type> result(m.num_rows()+1, m.num_cols());
+        result.slice(0,0,m.num_rows(),m.num_cols()) = m;
         result[R] = Ones;
         return result;
     }
 
-    template<int C, typename Precision, typename Base> inline Matrix<-1, C, Precision> unproject( const Matrix<-1, C, Precision, Base> & m){
-        Matrix<-1, C, Precision> result( m.num_rows()+1, m.num_cols() );
+    template<int C, typename Precision, typename Base> inline Matrix<-1, C, typename std::remove_const<Precision>::type> unproject( const Matrix<-1, C, Precision, Base> & m){
+        Matrix<-1, C, typename std::remove_const<Precision>::type> result( m.num_rows()+1, m.num_cols() );
         result.slice(0,0,m.num_rows(),m.num_cols()) = m;
         result[m.num_rows()] = Ones;
         return result;
@@ -242,7 +243,7 @@ namespace TooN {
 	template <int R, int C, typename P, typename B>
 	P inline norm_fro( const Matrix<R,C,P,B> & m ){
 		using std::sqrt;
-		P n = 0;
+		typename std::remove_const<P>::type n = 0;
 		for(int r = 0; r < m.num_rows(); ++r)
 			for(int c = 0; c < m.num_cols(); ++c)
 				n += m[r][c] * m[r][c];
@@ -257,9 +258,9 @@ namespace TooN {
 	P inline norm_inf( const Matrix<R,C,P,B> & m ){
 		using std::abs;
 		using std::max;
-		P n = 0;
+		typename std::remove_const<P>::type n = 0;
 		for(int r = 0; r < m.num_rows(); ++r){
-			P s = 0;
+			typename std::remove_const<P>::type s = 0;
 			for(int c = 0; c < m.num_cols(); ++c)
 				s += abs(m(r,c));
 			n = max(n,s);
@@ -274,9 +275,9 @@ namespace TooN {
 	P inline norm_1( const Matrix<R,C,P,B> & m ){
 		using std::abs;
 		using std::max;
-		P n = 0;
+		typename std::remove_const<P>::type n = 0;
 		for(int c = 0; c < m.num_cols(); ++c){
-			P s = 0;
+			typename std::remove_const<P>::type s = 0;
 			for(int r = 0; r < m.num_rows(); ++r)
 				s += abs(m(r,c));
 			n = max(n,s);
@@ -433,7 +434,7 @@ namespace TooN {
 	template<int Rows, int Cols, typename Precision, typename Base>
 	Precision trace(const Matrix<Rows, Cols, Precision, Base> & m ){
 		SizeMismatch<Rows,Cols>::test(m.num_rows(), m.num_cols());
-		Precision tr = 0;
+		typename std::remove_const<Precision>::type tr = 0;
 		for(int i = 0; i < m.num_rows(); ++i)
 			tr += m(i,i);
 		return tr;
@@ -443,11 +444,11 @@ namespace TooN {
 	/// @param vec the 3 vector input
 	/// @return the 3x3 matrix to set to the cross product matrix
 	///@ingroup gLinAlg
-	template<int Size, class P, class B> inline TooN::Matrix<3, 3, P> cross_product_matrix(const Vector<Size, P, B>& vec)
+	template<int Size, class P, class B> inline TooN::Matrix<3, 3, typename std::remove_const<P>::type> cross_product_matrix(const Vector<Size, P, B>& vec)
 	{
 		SizeMismatch<Size,3>::test(vec.size(), 3);
 
-		TooN::Matrix<3, 3, P> result;
+		TooN::Matrix<3, 3, typename std::remove_const<P>::type> result;
 
 		result(0,0) = 0; 
 		result(0,1) = -vec[2]; 
-- 
2.43.0


From 1307894261f9b0d9ec17ef0ca8e779f622c0e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 18/76] fix: random initialisation writes nothing for empty
 objects

---
 TooN/internal/debug.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index b8350ea..fd482a9 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -95,6 +95,9 @@ namespace Internal
 			//Do nothing except for noisy failure with non-POD types.
 			datafail<P> d={0};
 			bytes+=d.i;
+
+			if(bytes == 0)
+				return;
 			
 			switch(bytes & 0x3 )
 			{
-- 
2.43.0


From 9e9eca638792c2fe0da3e8bf94463fb20b73fe2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 19/76] fix: check sizes in gaussian_elimination with a vector

---
 TooN/gaussian_elimination.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/gaussian_elimination.h b/TooN/gaussian_elimination.h
index 870e7ec..617d1c2 100644
--- a/TooN/gaussian_elimination.h
+++ b/TooN/gaussian_elimination.h
@@ -43,6 +43,8 @@ namespace TooN {
 	inline Vector<N, Precision> gaussian_elimination (Matrix<N,N,Precision> A, Vector<N, Precision> b) {
 		using std::swap;
 		using std::abs;
+		SizeMismatch<N, N>::test(A.num_rows(), A.num_cols());
+		SizeMismatch<N, N>::test(A.num_rows(), b.size());
 
 		int size=b.size();
 
-- 
2.43.0


From 22130c17281f62773ca682592652077f4f0ed47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 20/76] fix: LU<float> back substitution

---
 TooN/LU.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index 9146de7..e14a1cf 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -106,7 +106,7 @@ class LU {
 
 		FortranInteger M=rhs.num_cols();
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=rhs.num_cols();
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0][0],&ldb);
@@ -135,7 +135,7 @@ class LU {
 
 		FortranInteger M=1;
 		FortranInteger N=my_lu.num_rows();
-		double alpha=1;
+		Precision alpha=1;
 		FortranInteger lda=my_lu.num_rows();
 		FortranInteger ldb=1;
 		trsm_("R","U","N","N",&M,&N,&alpha,&my_lu[0][0],&lda,&result[0],&ldb);
-- 
2.43.0


From 4e6f2fc989c2c76c031ff2f97e5b6cd4248af8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 21/76] fix: undo the row exchanges in LU back substitution for
 dynamically many right-hand sides

---
 TooN/LU.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/LU.h b/TooN/LU.h
index e14a1cf..d52f72d 100644
--- a/TooN/LU.h
+++ b/TooN/LU.h
@@ -115,7 +115,7 @@ class LU {
 		// now do the row swapping (lapack dlaswp.f only shuffles fortran rows = Rowmajor cols)
 		for(int i=N-1; i>=0; i--){
 			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1
-			for(int j=0; j<NRHS; j++){
+			for(int j=0; j<result.num_cols(); j++){
 				Precision temp = result[i][j];
 				result[i][j] = result[swaprow][j];
 				result[swaprow][j] = temp;
-- 
2.43.0


From 80c225e1ce36c28b797f510384134eabcd129b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 22/76] fix: continue the Cholesky decomposition of a
 semidefinite matrix past a zero pivot

---
 TooN/Cholesky.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/TooN/Cholesky.h b/TooN/Cholesky.h
index 4d8b449..de2798b 100644
--- a/TooN/Cholesky.h
+++ b/TooN/Cholesky.h
@@ -94,6 +94,7 @@ public:
 	private:
 	void do_compute() {
 		int size=my_cholesky.num_rows();
+		my_rank = size;
 		for(int col=0; col<size; col++){
 			Precision inv_diag = 1;
 			for(int row=col; row < size; row++){
@@ -107,10 +108,12 @@ public:
 					// this is the diagonal element so don't divide
 					my_cholesky(row,col)=val;
 					if(val == 0){
-						my_rank = row;
-						return;
+						// semidefinite: the rest of this column is zero
+						inv_diag=0;
+						my_rank--;
+					} else {
+						inv_diag=1/val;
 					}
-					inv_diag=1/val;
 				} else {
 					// cache the value without division in the upper half
 					my_cholesky(col,row)=val;
@@ -119,7 +122,6 @@ public:
 				}
 			}
 		}
-		my_rank = size;
 	}
 
 	public:
-- 
2.43.0


From 82fadd961951a4ce39c5d557b7a4cf14c075e145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 23/76] fix: Lapack_Cholesky considers the lower half of the
 matrix, as documented

---
 TooN/Lapack_Cholesky.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/TooN/Lapack_Cholesky.h b/TooN/Lapack_Cholesky.h
index a59240d..ee64473 100644
--- a/TooN/Lapack_Cholesky.h
+++ b/TooN/Lapack_Cholesky.h
@@ -94,11 +94,11 @@ public:
 	void do_compute(){
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potrf_("L", &N, my_cholesky_lapack.my_data, &N, &info);
+		potrf_("U", &N, my_cholesky_lapack.my_data, &N, &info);
 		for (int i=0;i<N;i++) {
 		  int j;
 		  for (j=0;j<=i;j++) {
-		    my_cholesky[i][j]=my_cholesky_lapack[j][i];
+		    my_cholesky[i][j]=my_cholesky_lapack[i][j];
 		  }
 		  // LAPACK does not set upper triangle to zero, 
 		  // must be done here
@@ -124,7 +124,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=1;
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -137,7 +137,7 @@ public:
 		FortranInteger N=my_cholesky.num_rows();
 		FortranInteger NRHS=m.num_cols();
 		FortranInteger info;
-		potrs_("L", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
+		potrs_("U", &N, &NRHS, my_cholesky_lapack.my_data, &N, result.my_data, &N, &info);     
 		assert(info==0);
 		return result;
 	}
@@ -163,11 +163,11 @@ public:
 		M=my_cholesky_lapack;
 		FortranInteger N = my_cholesky.num_rows();
 		FortranInteger info;
-		potri_("L", &N, M.my_data, &N, &info);
+		potri_("U", &N, M.my_data, &N, &info);
 		assert(info == 0);
 		for (int i=1;i<N;i++) {
 		  for (int j=0;j<i;j++) {
-		    M[i][j]=M[j][i];
+		    M[j][i]=M[i][j];
 		  }
 		}
 		return M;
-- 
2.43.0


From 7a4ae99fba6ecc5075b602b4b2e331010a5971e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 24/76] fix: QR of matrices whose columns need no or hardly any
 reflection

---
 TooN/QR.h | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/TooN/QR.h b/TooN/QR.h
index 10b33c3..8204aaf 100644
--- a/TooN/QR.h
+++ b/TooN/QR.h
@@ -133,6 +133,8 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 			for(int n=0; n < square_size()-1; n++)	
 			{
 				using std::sqrt;
+				using std::abs;
+				using std::hypot;
 
 				int sz = square_size() - n;
 				int nc = m.num_cols() - n;
@@ -153,21 +155,36 @@ template<int Rows=Dynamic, int Cols=Rows, typename Precision=double> class QR
 				//
 				//let a = |x| * sgn(x_0])
 
-				Precision  nx2 = norm_sq(s.T()[0]);
+				Precision x0 = s[0][0];
 
-				Precision a = sqrt(nx2) * (s.T()[0][0] < 0?-1:1);
+				//If x is already a multiple of [1 0 ... 0], there is nothing to do
+				Precision biggest = 0;
+				for(int i=1; i < sz; i++)
+					biggest = std::max(biggest, static_cast<Precision>(abs(s[i][0])));
 
-				//We now want the vector u = x - ae
+				if(biggest == 0)
+					continue;
+
+				//let t be the length of x without x_0
+				s.T()[0].slice(1, sz-1) /= biggest;
+				Precision len = sqrt(norm_sq(s.T()[0].slice(1, sz-1)));
+				Precision t = len * biggest;
+
+				Precision a = hypot(x0, t) * (x0 < 0?-1:1);
+
+				//We now want the vector u = (x - ae) / t
 				//
 				// Multipling (I - 2 hat(u) * hat(u)^T) * s will zero out the first column of s except
 				// for the first element. The matrix P = is orthogonal, a bit like Qn 
 				//
-				//Since x is no longer needed, we can just modify the first element
-				s.T()[0][0] -= a;
+				//Since x is no longer needed, we can just modify it in place.
+				//x_0 - a would cancel, but (x_0 - a)(x_0 + a) = -t^2
+				s.T()[0].slice(1, sz-1) /= len;
+				s.T()[0][0] = -t / (x0 + a);
 				//auto& u = x;
 
-				//We want H = norm_sq(u)/2 =  a (a - x_0) = a * -u_0
-				Precision H = -a * s.T()[0][0];
+				//We want H = norm_sq(u)/2, where all but the first element of u have length 1
+				Precision H = (s.T()[0][0] * s.T()[0][0] + 1) / 2;
 
 
 				//Note that we're working on a reduced sized matrix here.
-- 
2.43.0


From 59ad7da3ed70bc5461b505122bc3b66430e4e2f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:54 +0000
Subject: [PATCH 25/76] fix: describe the permutation returned by
 QR_Lapack::get_P as it is

---
 TooN/QR_Lapack.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/QR_Lapack.h b/TooN/QR_Lapack.h
index 67f1fd0..3fd35fd 100644
--- a/TooN/QR_Lapack.h
+++ b/TooN/QR_Lapack.h
@@ -89,8 +89,8 @@ class QR_Lapack{
 			return Q;
 		}	
 
-		///Return the permutation vector. The definition is that column \f$i\f$ of A is
-		///column \f$P(i)\f$ of \f$QR\f$.
+		///Return the permutation vector. The definition is that column \f$i\f$ of 
+		///\f$QR\f$ is column \f$P(i)\f$ of A.
 		const Vector<Cols, int>& get_P()
 		{
 			return pivot;
-- 
2.43.0


From 1a767e2f9a52530b622a91a872374c4749df27a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:44 +0000
Subject: [PATCH 26/76] fix: SVD::rank counts the singular values that are kept

---
 TooN/SVD.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/SVD.h b/TooN/SVD.h
index e22a437..6f316d8 100644
--- a/TooN/SVD.h
+++ b/TooN/SVD.h
@@ -221,9 +221,9 @@ public:
 	/// See the detailed description of the pseudo-inverse and condition variables.
 	int rank(const Precision condition = condition_no) {
 		if (my_diagonal[0] == 0) return 0;
-		int result=1;
+		int result=0;
 		for(int i=0; i<min_dim(); i++){
-			if(my_diagonal[i] * condition <= my_diagonal[0]){
+			if(my_diagonal[i] * condition > my_diagonal[0]){
 				result++;
 			}
 		}
-- 
2.43.0


From 8f8cd410800afdf634ad77e5aa88f98bfe711846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 27/76] fix: GR_SVD of matrices that are not of double
 precision can solve

---
 TooN/GR_SVD.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index dedff91..ff65b2a 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -77,7 +77,7 @@ namespace TooN
     ///otherwise 0 is returned.
     ///@param inv_diag Vector in which to return the inverse diagonal.
     ///@param condition Elements must be larger than this factor times the largest diagonal element to be considered well scaled. 
-    void get_inv_diag(Vector<N>& inv_diag, const Precision condition)
+    void get_inv_diag(Vector<N, Precision>& inv_diag, const Precision condition)
     {
       Precision dMax = get_largest_singular_value();
       for(int i=0; i<N; ++i)
-- 
2.43.0


From 80a0919f784f129cc89d63273529cf354ad74d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:00 +0000
Subject: [PATCH 28/76] fix: GR_SVD converges for repeated singular values

---
 TooN/GR_SVD.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/TooN/GR_SVD.h b/TooN/GR_SVD.h
index ff65b2a..8baa8fd 100644
--- a/TooN/GR_SVD.h
+++ b/TooN/GR_SVD.h
@@ -31,6 +31,7 @@
 #include <TooN/TooN.h>
 #include <cmath>
 #include <vector>
+#include <limits>
 #include <algorithm>
 
 namespace TooN
@@ -348,13 +349,16 @@ namespace TooN
     using std::abs;
     using std::sqrt;
     const int k1 = k-1;
+    // Elements this small are rounding noise. A smaller threshold than the
+    // spacing of the numbers is not always reached.
+    const Precision negligible = std::numeric_limits<Precision>::epsilon() * anorm;
     // 520 is here!
     for(int l=k; l>=0; --l)
       { // 530
 	const int l1 = l-1;
-	if((abs(vOffDiagonal[l]) + anorm) == anorm)	
+	if(abs(vOffDiagonal[l]) <= negligible)	
 		goto line_565;
-	if((abs(vDiagonal[l1]) + anorm) == anorm)
+	if(abs(vDiagonal[l1]) <= negligible)
 		goto line_540;
 	continue;
 
@@ -366,7 +370,7 @@ namespace TooN
 	      { // 560
 		Precision f = s * vOffDiagonal[i];
 		vOffDiagonal[i] *= c;
-		if((abs(f) + anorm) == anorm)
+		if(abs(f) <= negligible)
 		  break; // goto 565, effectively
 		Precision g = vDiagonal[i];
 		Precision h = sqrt(f * f + g * g); // Other implementations do this bit better
-- 
2.43.0


From 0e848571ea7d4f5011da1666c1e29f281ccb75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 29/76] fix: SymEigen of 2x2 matrices with close eigenvalues

---
 TooN/SymEigen.h | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8c6d42f..89a19c4 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -103,30 +103,29 @@ namespace Internal{
 		///@param ev Eigen values output
 		template<typename P, typename B>
 		static inline void compute(const Matrix<2,2,P,B>& m, Matrix<2,2,P>& eig, Vector<2, P>& ev) {
-			double trace = m[0][0] + m[1][1];
 			//Only use the upper triangular elements.
-			double det = m[0][0]*m[1][1] - m[0][1]*m[0][1]; 
-			double disc = trace*trace - 4 * det;
-			
-			//Mathematically, disc >= 0 always.
-			//Numerically, it can drift very slightly below zero.
-			if(disc < 0)
-				disc = 0;
+			const double trace = static_cast<double>(m[0][0]) + m[1][1];
+			const double diff = static_cast<double>(m[0][0]) - m[1][1];
+			const double b = m[0][1];
 
-			using std::sqrt;
-			double root_disc = sqrt(disc);
+			//The root of the discriminant, written as a sum of squares:
+			//trace*trace - 4*det loses all digits of close eigenvalues.
+			const double root_disc = std::hypot(diff, 2*b);
 			ev[0] = 0.5 * (trace - root_disc);
 			ev[1] = 0.5 * (trace + root_disc);
-			double a = m[0][0] - ev[0];
-			double b = m[0][1];
-			double magsq = a*a + b*b;
-			if (magsq == 0) {
+
+			//The larger one of m[0][0] - ev[0] and m[1][1] - ev[0], which does not cancel.
+			const double a = 0.5 * (std::abs(diff) + root_disc);
+			const double mag = std::hypot(a, b);
+			if (mag == 0) {
 				eig[0][0] = 1.0;
 				eig[0][1] = 0;
+			} else if (diff >= 0) {
+				eig[0][0] = -b / mag;
+				eig[0][1] = a / mag;
 			} else {
-				eig[0][0] = -b;
-				eig[0][1] = a;
-				eig[0] *= 1.0/sqrt(magsq);
+				eig[0][0] = (b > 0 ? -a : a) / mag;
+				eig[0][1] = (b > 0 ? b : -b) / mag;
 			}
 			eig[1][0] = -eig[0][1];
 			eig[1][1] = eig[0][0];
-- 
2.43.0


From fe35f1358509260806233f3883a84e665f431390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 30/76] fix: SymEigen of 3x3 matrices with close, repeated,
 zero or small eigenvalues

---
 TooN/SymEigen.h | 220 +++++++++++++++---------------------------------
 1 file changed, 69 insertions(+), 151 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 89a19c4..8b6a3a8 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -34,6 +34,7 @@
 #include <cmath>
 #include <utility>
 #include <complex>
+#include <limits>
 #include <TooN/lapack.h>
 
 #include <TooN/TooN.h>
@@ -150,26 +151,39 @@ namespace Internal{
             using std::min;
             using std::swap;
             
-			double a_norm = norm_1(m);
-			double eps = 1e-7 * a_norm;
 
-			if(a_norm == 0)
+			//Subtract a multiple of the identity and normalise. This does not change
+			//the eigenvectors, and keeps the digits that tell close eigenvalues apart.
+			const double mean = (static_cast<double>(m[0][0]) + m[1][1] + m[2][2])/3;
+			Matrix<3, 3, double> s = Zeros;
+			double size = 0;
+			for(int r=0; r < 3; r++)
+				for(int c=r; c < 3; c++)
+				{
+					s[r][c] = s[c][r] = r == c ? m[r][c] - mean : m[r][c];
+					size = std::max(size, std::abs(s[r][c]));
+				}
+
+			if(size <= 4 * std::numeric_limits<double>::epsilon() * std::abs(mean))
 			{
 				eig = TooN::Identity;
+				ev = Ones * mean;
 				return;
 			}
 
+			s /= size;
+
             //Polynomial terms of |a - l * Identity|
             //l^3 + a*l^2 + b*l + c
 
-            const double& a11 = m[0][0];
-            const double& a12 = m[0][1];
-            const double& a13 = m[0][2];
+            const double& a11 = s[0][0];
+            const double& a12 = s[0][1];
+            const double& a13 = s[0][2];
 
-            const double& a22 = m[1][1];
-            const double& a23 = m[1][2];
+            const double& a22 = s[1][1];
+            const double& a23 = s[1][2];
 
-            const double& a33 = m[2][2];
+            const double& a33 = s[2][2];
 
             //From matlab:
             double a = -a11-a22-a33;
@@ -200,151 +214,55 @@ namespace Internal{
             double A_minus_B = -2*cuberoot_r*sin(theta3);
 
             //calculate eigenvalues
-            ev =  makeVector(A_plus_B, -A_plus_B/2 + A_minus_B * sqrt(3)/2, -A_plus_B/2 - A_minus_B * sqrt(3)/2) - Ones * a/3;
-
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-            if(ev[1] > ev[2])
-                swap(ev[1], ev[2]);
-            if(ev[0] > ev[1])
-                swap(ev[0], ev[1]);
-
-			// for the vector [x y z]
-			// eliminate to compute the ratios x/z and y/z
-			// in both cases, the denominator is the same, so in the absence of
-			// any other scaling, choose the denominator to be z and 
-			// tne numerators to be x and y.
-			//
-			// x/z and y/z,  implies ax, ay, az which vanishes
-			// if a=0
-            //calculate the eigenvectors
-            eig[0][0]=a12 * a23 - a13 * (a22 - ev[0]);
-            eig[0][1]=a12 * a13 - a23 * (a11 - ev[0]);
-            eig[0][2]=(a11-ev[0])*(a22-ev[0]) - a12*a12;
-            eig[1][0]=a12 * a23 - a13 * (a22 - ev[1]);
-            eig[1][1]=a12 * a13 - a23 * (a11 - ev[1]);
-            eig[1][2]=(a11-ev[1])*(a22-ev[1]) - a12*a12;
-            eig[2][0]=a12 * a23 - a13 * (a22 - ev[2]);
-            eig[2][1]=a12 * a13 - a23 * (a11 - ev[2]);
-            eig[2][2]=(a11-ev[2])*(a22-ev[2]) - a12*a12;
-			
-			//Check to see if we have any zero vectors
-			double e0norm = norm_1(eig[0]);
-			double e1norm = norm_1(eig[1]);
-			double e2norm = norm_1(eig[2]);
-
-			//Some of the vectors vanish: we're computing
-			// x/z and y/z, which implies ax, ay, az which vanishes
-			// if a=0;
-			//
-			// So compute the other two choices.
-			if(e0norm < eps)
-			{
-				eig[0][0] += a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][1] += (ev[0]-a11)*(ev[0]-a33) - a13*a13;
-				eig[0][2] += a23 * (ev[0] - a11) + a12 * a13;
-				e0norm = norm_1(eig[0]);
-			}
-
-			if(e1norm < eps)
-			{
-				eig[1][0] += a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][1] += (ev[1]-a11)*(ev[1]-a33) - a13*a13;
-				eig[1][2] += a23 * (ev[1] - a11) + a12 * a13;
-				e1norm = norm_1(eig[1]);
-			}
-
-			if(e2norm < eps)
-			{
-				eig[2][0] += a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][1] += (ev[2]-a11)*(ev[2]-a33) - a13*a13;
-				eig[2][2] += a23 * (ev[2] - a11) + a12 * a13;
-				e2norm = norm_1(eig[2]);
-			}
-
-
-			//OK, a AND b might be 0
-			//Check for vanishing and add in y/x, z/x which implies cx, cy, cz
-			if(e0norm < eps)
+            Vector<3, double> l =  makeVector(A_plus_B, -A_plus_B/2 + A_minus_B * sqrt(3)/2, -A_plus_B/2 - A_minus_B * sqrt(3)/2) - Ones * a/3;
+
+            if(l[0] > l[1])
+                swap(l[0], l[1]);
+            if(l[1] > l[2])
+                swap(l[1], l[2]);
+            if(l[0] > l[1])
+                swap(l[0], l[1]);
+
+			//The eigenvalue that is furthest from its neighbour has a well defined
+			//eigenvector: it is orthogonal to the rows of s - l * Identity, two of
+			//which are clearly independent.
+			const int isolated = l[2]-l[1] > l[1]-l[0] ? 2 : 0;
+			const Matrix<3, 3, double> t = s - l[isolated] * TooN::Identity;
+
+			Vector<3, double> v = t[0]^t[1];
+			if(norm_sq(t[1]^t[2]) > norm_sq(v))
+				v = t[1]^t[2];
+			if(norm_sq(t[2]^t[0]) > norm_sq(v))
+				v = t[2]^t[0];
+			normalize(v);
+
+			//The other two span the plane orthogonal to it, and may be as close to
+			//each other as they like: solve the two dimensional problem there.
+			int smallest = 0;
+			for(int n=1; n < 3; n++)
+				if(std::abs(v[n]) < std::abs(v[smallest]))
+					smallest = n;
+			Vector<3, double> axis = Zeros;
+			axis[smallest] = 1;
+			const Vector<3, double> x = unit(v ^ axis);
+			const Vector<3, double> y = v ^ x;
+
+			Matrix<2, 2, double> plane, plane_eig;
+			Vector<2, double> plane_ev;
+			plane[0] = makeVector(x * s * x, x * s * y);
+			plane[1] = makeVector(x * s * y, y * s * y);
+			ComputeSymEigen<2>::compute(plane, plane_eig, plane_ev);
+
+			const int first = isolated == 0 ? 1 : 0;
+			for(int n=0; n < 2; n++)
 			{
-				eig[0][0] +=(ev[0]-a22)*(ev[0]-a33) - a23*a23;
-				eig[0][1] +=a12 * (ev[0] - a33) + a23 * a13;
-				eig[0][2] +=a13 * (ev[0] - a22) + a23 * a12;
-				e0norm = norm_1(eig[0]);
+				eig[first+n] = x * plane_eig[n][0] + y * plane_eig[n][1];
+				l[first+n] = plane_ev[n];
 			}
+			eig[isolated] = v;
+			l[isolated] = v * s * v;
 
-			if(e1norm < eps)
-			{
-				eig[1][0] +=(ev[1]-a22)*(ev[1]-a33) - a23*a23;
-				eig[1][1] +=a12 * (ev[1] - a33) + a23 * a13;
-				eig[1][2] +=a13 * (ev[1] - a22) + a23 * a12;
-				e1norm = norm_1(eig[1]);
-			}
-
-			if(e2norm < eps)
-			{
-				eig[2][0] +=(ev[2]-a22)*(ev[2]-a33) - a23*a23;
-				eig[2][1] +=a12 * (ev[2] - a33) + a23 * a13;
-				eig[2][2] +=a13 * (ev[2] - a22) + a23 * a12;
-				e2norm = norm_1(eig[2]);
-			}
-
-			//Oh, COME ON!!!
-			if(e0norm < eps || e1norm < eps || e2norm < eps)
-			{
-				//This is blessedly rare
-		
-				double ns[] = {e0norm, e1norm, e2norm};
-				double is[] = {0, 1, 2};
-				
-				//Sort them
-				if(ns[0] > ns[1])
-				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
-				}
-				if(ns[1] > ns[2])
-				{
-					swap(ns[1], ns[2]);
-					swap(is[1], is[2]);
-				}
-				if(ns[0] > ns[1])
-				{
-					swap(ns[0], ns[1]);
-					swap(is[0], is[1]);
-				}
-
-
-				if(ns[1] >= eps)
-				{
-					//one small one. Use the cross product of the other two
-					normalize(eig[1]);
-					normalize(eig[2]);
-					eig[is[0]] = eig[is[1]]^eig[is[2]];
-				}
-				else if(ns[2] >= eps)
-				{
-					normalize(eig[is[2]]);
-					
-					//Permute vector to get a new vector with some orthogonal components.
-					Vector<3> p = makeVector(eig[is[2]][1], eig[is[2]][2], eig[is[2]][0]);
-
-					//Gram-Schmit
-					Vector<3> v1 = unit(p - eig[is[2]] * (p * eig[is[2]]));
-					Vector<3> v2 = v1^eig[is[2]];
-
-					eig[is[0]] = v1;
-					eig[is[1]] = v2;
-				}
-				else
-					eig = TooN::Identity;
-			}
-			else
-			{
-  				normalize(eig[0]);
-  				normalize(eig[1]);
-  				normalize(eig[2]);
-			}
+			ev = l * size + Ones * mean;
 		}
 	};
 
-- 
2.43.0


From d2f268b8ebfe17bd5e5cb5b271bce901014e2a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:40 +0000
Subject: [PATCH 31/76] fix: document the order of the results of SymEigen as
 it is

---
 TooN/SymEigen.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 8b6a3a8..2ae8146 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -370,8 +370,8 @@ public:
 	}
 
 	/// Calculates the reciprocals of the eigenvalues of the matrix.
-	/// The vector <code>invdiag</code> lists the eigenvalues in order, from
-	/// the largest (i.e. smallest reciprocal) to the smallest.
+	/// The vector <code>invdiag</code> lists them in the order of get_evalues(),
+	/// from the smallest eigenvalue to the largest.
 	/// These are also the diagonal values of the matrix \f$Lambda^{-1}\f$.
 	/// Any eigenvalues which are too small are set to zero (see the SVD
 	/// detailed description for a description of the and condition variables).
@@ -391,8 +391,8 @@ public:
 	/// Returns the eigenvectors of the matrix.
 	/// This returns \f$U^T\f$, so that the rows of the matrix are the eigenvectors,
 	/// which can be extracted using usual Matrix::operator[]() subscript operator.
-	/// They are returned in order of the size of the corresponding eigenvalue, i.e.
-	/// the vector with the largest eigenvalue is first.
+	/// They are returned in the order of get_evalues(), i.e. the vector with the
+	/// smallest eigenvalue is first.
 	Matrix<Size,Size,Precision>& get_evectors() {return my_evectors;}
 
 	/**\overload
-- 
2.43.0


From 239aac2df8846073a304ed545dc8c28fb649debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:06 +0000
Subject: [PATCH 32/76] fix: exp of matrices of norm above 2^30

---
 TooN/helpers.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/helpers.h b/TooN/helpers.h
index ba136c6..96c0225 100644
--- a/TooN/helpers.h
+++ b/TooN/helpers.h
@@ -331,11 +331,11 @@ namespace TooN {
 	/// @ingroup gLinAlg
 	template <int R, int C, typename P, typename B>
 	inline Matrix<R, C, P> exp( const Matrix<R,C,P,B> & m ){
-		using std::max;
+		using std::ldexp;
 		SizeMismatch<R, C>::test(m.num_rows(), m.num_cols());
-		const P l = log2(norm_inf(m));
-		const int s = max(0,(int)ceil(l));
-		Matrix<R,C,P> result = Internal::exp_taylor(m/(1<<s));
+		const P norm = norm_inf(m);
+		const int s = norm > 1 ? (int)ceil(log2(norm)) : 0;
+		Matrix<R,C,P> result = Internal::exp_taylor(m/ldexp(static_cast<P>(1), s));
 		for(int i = 0; i < s; ++i)
 			result = result * result;
 		return result;
-- 
2.43.0


From 3f4610616f368c6f607f635537b797a9e6c13b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:58 +0000
Subject: [PATCH 33/76] fix: SO2 and SE2 of different precisions can be
 multiplied

---
 TooN/so2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/so2.h b/TooN/so2.h
index 8fe30e6..fea5ff3 100644
--- a/TooN/so2.h
+++ b/TooN/so2.h
@@ -124,11 +124,12 @@ public:
 		return result;
 	}
 
+	template <typename PA, typename PB>
+	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	inline SO2(const SO2& so2, const Invert&) : my_matrix(so2.my_matrix.T()) {}
-	template <typename PA, typename PB>
-	inline SO2(const SO2<PA>& a, const SO2<PB>& b) : my_matrix(a.get_matrix()*b.get_matrix()) {}
 
 	Matrix<2,2,Precision> my_matrix;
 };
-- 
2.43.0


From fc9578a89f5dacabd426c54c1c0fe1915bef7b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:17 +0000
Subject: [PATCH 34/76] fix: SE2::adjoint of matrices

---
 TooN/se2.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 6d985ed..58782a1 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -114,8 +114,9 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<3, Precision> adjoint(const Vector<3,Precision, Accessor> & vect) const {
+	template<int S, typename P, typename Accessor>
+	Vector<3, Precision> adjoint(const Vector<S,P, Accessor> & vect) const {
+		SizeMismatch<3,S>::test(3, vect.size());
 		Vector<3, Precision> result;
 		result[2] = vect[2];
 		result.template slice<0,2>() = my_rotation * vect.template slice<0,2>();
@@ -124,8 +125,10 @@ public:
 		return result;
 	}
 
-	template <typename Accessor>
-	Matrix<3,3,Precision> adjoint(const Matrix<3,3,Precision,Accessor>& M) const {
+	template <int R, int C, typename P, typename Accessor>
+	Matrix<3,3,Precision> adjoint(const Matrix<R,C,P,Accessor>& M) const {
+		SizeMismatch<3,R>::test(3, M.num_rows());
+		SizeMismatch<3,C>::test(3, M.num_cols());
 		Matrix<3,3,Precision> result;
 		for(int i=0; i<3; ++i)
 			result.T()[i] = adjoint(M.T()[i]);
-- 
2.43.0


From cb4e1156de97002dfc7c3e08803efae7fd0c7acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:02 +0000
Subject: [PATCH 35/76] fix: exp of SE2 and SE3 to full precision at angles
 below 1e-4

---
 TooN/se2.h | 2 +-
 TooN/se3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/se2.h b/TooN/se2.h
index 58782a1..2f14854 100644
--- a/TooN/se2.h
+++ b/TooN/se2.h
@@ -328,7 +328,7 @@ inline SE2<Precision> SE2<Precision>::exp(const Vector<S, PV, Accessor>& mu)
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	if (theta_sq < 1e-8){
-		result.get_translation() = mu.template slice<0,2>() + 0.5 * cross;
+		result.get_translation() = (1.0 - theta_sq * one_6th) * mu.template slice<0,2>() + 0.5 * cross;
 	} else {
 		Precision A, B;
 		if (theta_sq < 1e-6) {
diff --git a/TooN/se3.h b/TooN/se3.h
index a699782..3745495 100644
--- a/TooN/se3.h
+++ b/TooN/se3.h
@@ -407,7 +407,7 @@ inline SE3<Precision> SE3<Precision>::exp(const Vector<S, P, VA>& mu){
 	if (theta_sq < 1e-8) {
 		A = 1.0 - one_6th * theta_sq;
 		B = 0.5;
-		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross;
+		result.get_translation() = mu.template slice<0,3>() + 0.5 * cross + TooN::operator*(one_6th, (w ^ cross));
 	} else {
 		Precision C;
 		if (theta_sq < 1e-6) {
-- 
2.43.0


From 818a5e639895819d8d0dfb60893e2f28e2eead59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 36/76] fix: SO3 between two nearly parallel or opposite
 directions is a rotation

---
 TooN/so3.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 824ad44..9e29077 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -78,7 +78,7 @@ public:
 	SO3(const Vector<S1, P1, A1> & a, const Vector<S2, P2, A2> & b ){
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
-		Vector<3, Precision> n = a ^ b;
+		Vector<3, Precision> n = Vector<3, P1>(a) ^ Vector<3, P2>(b);
 		if(norm_sq(n) == 0) {
 			//check that the vectors are in the same direction if cross product is 0. If not,
 			//this means that the rotation is 180 degrees, which leads to an ambiguity in the rotation axis.
@@ -86,14 +86,28 @@ public:
 			my_matrix = Identity;
 			return;
 		}
+		const Vector<3, Precision> ua = unit(a), ub = unit(b);
+		const Precision c = ua * ub;
+		n = ua ^ ub;
+		if(c > 0) {
+			// n has the length of the sine. Rounding makes its direction unreliable for small angles, 
+			// where it does not matter.
+			rodrigues_so3_exp(n, Precision(1), 1/(1+c), my_matrix);
+			return;
+		}
+		// close to opposite directions, rounding leaves n with parts along a and b, and nothing else in the extreme
+		if(norm_sq(n) < 64 * std::numeric_limits<Precision>::epsilon() * std::numeric_limits<Precision>::epsilon()) {
+			n = Zeros;
+			n[ua[0]*ua[0] < ua[1]*ua[1] ? (ua[0]*ua[0] < ua[2]*ua[2] ? 0 : 2) : (ua[1]*ua[1] < ua[2]*ua[2] ? 1 : 2)] = 1;
+		}
 		n = unit(n);
-		Matrix<3> R1;
-		R1.T()[0] = unit(a);
-		R1.T()[1] = n;
-		R1.T()[2] = R1.T()[0] ^ n;
-		my_matrix.T()[0] = unit(b);
-		my_matrix.T()[1] = n;
-		my_matrix.T()[2] = my_matrix.T()[0] ^ n;
+		Matrix<3, 3, Precision> R1;
+		R1.T()[0] = ua;
+		R1.T()[1] = unit(n - ua * (ua * n));
+		R1.T()[2] = R1.T()[0] ^ R1.T()[1];
+		my_matrix.T()[0] = ub;
+		my_matrix.T()[1] = unit(n - ub * (ub * n));
+		my_matrix.T()[2] = my_matrix.T()[0] ^ my_matrix.T()[1];
 		my_matrix = my_matrix * R1.T();
 	}
 	
-- 
2.43.0


From 5bd14637613a112b8ad594d5d21dbe3c58019898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 37/76] fix: SO3::exp of vectors of lower precision computes in
 its own precision

---
 TooN/so3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 9e29077..850528e 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -265,11 +265,12 @@ inline void rodrigues_so3_exp(const Vector<S,VP, VA>& w, const Precision A, cons
 ///@param w Weightings of the generator matrices.
 template <typename Precision>
 template<int S, typename VP, typename VA>
-inline SO3<Precision> SO3<Precision>::exp(const Vector<S,VP,VA>& w){
+inline SO3<Precision> SO3<Precision>::exp(const Vector<S,VP,VA>& vect){
 	using std::sqrt;
 	using std::sin;
 	using std::cos;
-	SizeMismatch<3,S>::test(3, w.size());
+	SizeMismatch<3,S>::test(3, vect.size());
+	const Vector<3, Precision> w = vect;
 	
 	static const Precision one_6th = 1.0/6.0;
 	static const Precision one_20th = 1.0/20.0;
-- 
2.43.0


From 69ddf57f0ce882408194b54d7db6af33b7c3bf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 38/76] fix: exp and ln of SIM2 and SIM3 with small angle and
 log-scale, and in single precision

---
 TooN/sim2.h |  2 +-
 TooN/sim3.h | 70 ++++++++++++++++++++++++++++++++---------------------
 2 files changed, 44 insertions(+), 28 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 6a4b907..d5fd79d 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -342,7 +342,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	result.get_scale() = exp(mu[3]);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[3], theta);
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
 	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 0545bac..6ed8ea7 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -418,39 +418,55 @@ Matrix<Rows,4, typename Internal::MultiplyType<PM,P>::type> operator*(const Matr
 
 namespace Internal {
 
-/// internal function that calculates the coefficients for the Rodrigues formula for SIM3 translation
+/// internal function that calculates the coefficients for the Rodrigues formula for SIM3 translation:
+/// the integrals over x from 0 to 1 of exp(s x), exp(s x) sin(t x)/t and exp(s x) (1-cos(t x))/t^2.
 template <typename Precision>
 inline Vector<3, Precision> compute_rodrigues_coefficients_sim3( const Precision & s, const Precision & t ){
 	using std::exp;
+	using std::sin;
+	using std::cos;
 
-	Vector<3, Precision> coeff;
+	Vector<3, Precision> coeff = Zeros;
 	const Precision es = exp(s);
-
-	// 4 cases for s -> 0 and/or theta -> 0
-	// the Taylor expansions were calculated with Maple 12 and truncated at the 3rd power,
-	// such that eps^3 < 1e-18 which results in approximately 1 + eps^3 = 1
-	static const Precision eps = 1e-6;
-
-	if(fabs(s) < eps && fabs(t) < eps){
-		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = 1/2 + s/3 - t*t/24 + s*s/8;
-		coeff[2] = 1/6 + s/8 - t*t/120 + s*s/20;
-	} else if(fabs(s) < eps) {
-		coeff[0] = 1 + s/2 + s*s/6;
-		coeff[1] = (1-cos(t))/(t*t) + (sin(t)-cos(t)*t)*s/(t*t*t)+(2*sin(t)*t-t*t*cos(t)-2+2*cos(t))*s*s/(2*t*t*t*t);
-		coeff[2] = (t-sin(t))/(t*t*t) - (-t*t-2+2*cos(t)+2*sin(t)*t)*s/(2*t*t*t*t) - (-t*t*t+6*cos(t)*t+3*sin(t)*t*t-6*sin(t))*s*s/(6*t*t*t*t*t);
-	} else if(fabs(t) < eps) {
+	const Precision zz = s*s + t*t;
+
+	// Close to s = 0 and t = 0 use power series: with z = s + it, the coefficients are the sums over n of 
+	// s^n, Im(z^n)/t and (s^n - Re(z^n))/t^2, each divided by (n+1)!.
+	if(s*s < 0.25) {
+		Precision sn = 1;
+		for(int n=1; n < 20; ++n) {
+			coeff[0] += sn;
+			sn *= s / (n+1);
+		}
+	} else
 		coeff[0] = (es - 1)/s;
-		coeff[1] = (s*es+1-es)/(s*s) - (6*s*es+6-6*es+es*s*s*s-3*es*s*s)*t*t/(6*s*s*s*s);
-		coeff[2] = (es*s*s-2*s*es+2*es-2)/(2*s*s*s) - (es*s*s*s*s-4*es*s*s*s+12*es*s*s-24*s*es+24*es-24)*t*t/(24*s*s*s*s*s);
+
+	if(zz < 0.25) {
+		Precision re = 1, im = 0, co = 0, f = 1;
+		for(int n=1; n < 20; ++n) {
+			f /= n;
+			coeff[1] += f * im;
+			coeff[2] += f * co;
+			co = s*co + im;
+			const Precision re_next = s*re - t*t*im;
+			im = s*im + re;
+			re = re_next;
+		}
 	} else {
+		// (e^z - 1)/z is the integral of exp(s x) (cos(t x) + i sin(t x))
+		const Precision half = sin(t/2);
 		const Precision a = es * sin(t);
-		const Precision b = es * cos(t);
-		const Precision inv_s_theta = 1/(s*s + t*t);
-
-		coeff[0] = (es - 1)/s;
-		coeff[1] = (a*s + (1-b)*t) * inv_s_theta / t;
-		coeff[2] = (coeff[0] - ((b-1)*s + a*t) * inv_s_theta) / (t*t);
+		const Precision b = (es - 1) - 2 * es * half * half;
+		const Precision c = (b*s + a*t) / zz;
+
+		if(t*t < 1e-8) {
+			// the limits for t -> 0
+			coeff[1] = (s*es + 1 - es) / (s*s);
+			coeff[2] = (es*(s*s/2 - s + 1) - 1) / (s*s*s);
+		} else {
+			coeff[1] = (a*s - b*t) / zz / t;
+			coeff[2] = (coeff[0] - c) / (t*t);
+		}
 	}
 
 	return coeff;
@@ -472,10 +488,10 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
 	const Precision t = norm(w);
-	result.get_rotation() = SO3<>::exp(w);
+	result.get_rotation() = SO3<Precision>::exp(w);
 
 	// translation
-	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(mu[6],t); 
+	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[6],t); 
 	const Vector<3,Precision> cross = w ^ mu.template slice<0,3>();
 	result.get_translation() = coeff[0] * mu.template slice<0,3>() + TooN::operator*(coeff[1], cross) + TooN::operator*(coeff[2], (w ^ cross));
 
-- 
2.43.0


From 16054eaf509fc6acd5c02b2c964265fb92725931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 39/76] fix: SIM2::exp and SIM2::ln apply the translation part
 of the exponential

---
 TooN/sim2.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index d5fd79d..e0b2333 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -344,7 +344,8 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[3], theta);
 	const Vector<2, Precision> cross = makeVector( -theta * mu[1], theta * mu[0]);
-	result.get_translation() = coeff[2] * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
+	// in the plane, cross applied twice is a multiplication with -theta^2
+	result.get_translation() = (coeff[0] - theta*theta*coeff[2]) * mu.template slice<0,2>() + TooN::operator*(coeff[1], cross);
 
 	return result;
 }
@@ -365,7 +366,7 @@ inline Vector<4, Precision> SIM2<Precision>::ln(const SIM2<Precision> & sim2) {
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3(result[3], theta);
 	Matrix<2,2, Precision> cross = Zeros; cross(0,1) = -theta; cross(1,0) = theta;
-	const Matrix<2,2, Precision> W = coeff[2] * Identity + coeff[1] * cross;
+	const Matrix<2,2, Precision> W = (coeff[0] - theta*theta*coeff[2]) * Identity + coeff[1] * cross;
 	result.template slice<0,2>() = gaussian_elimination(W, sim2.get_translation());
 
 	return result;
-- 
2.43.0


From c4c4eb094cca3b58b5dfb79a65ceedf4e5084320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 40/76] fix: SIM2::adjoint takes scale into account and sets
 all coordinates

---
 TooN/sim2.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index e0b2333..971c79b 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -128,18 +128,22 @@ public:
 
 	/// transfers a vector in the Lie algebra, from one coord frame to another
 	/// so that exp(adjoint(vect)) = (*this) * exp(vect) * (this->inverse())
-	template<typename Accessor>
-	Vector<4, Precision> adjoint(const Vector<4,Precision, Accessor> & vect) const {
+	template<int S, typename P, typename Accessor>
+	Vector<4, Precision> adjoint(const Vector<S,P, Accessor> & vect) const {
+		SizeMismatch<4,S>::test(4, vect.size());
 		Vector<4, Precision> result;
 		result[2] = vect[2];
-		result.template slice<0,2>() = get_rotation() * vect.template slice<0,2>();
-		result[0] += vect[2] * get_translation()[1];
-		result[1] -= vect[2] * get_translation()[0];
+		result[3] = vect[3];
+		result.template slice<0,2>() = get_rotation() * (get_scale() * vect.template slice<0,2>());
+		result[0] += vect[2] * get_translation()[1] - vect[3] * get_translation()[0];
+		result[1] -= vect[2] * get_translation()[0] + vect[3] * get_translation()[1];
 		return result;
 	}
 
-	template <typename Accessor>
-	Matrix<4,4,Precision> adjoint(const Matrix<4,4,Precision,Accessor>& M) const {
+	template <int R, int C, typename P, typename Accessor>
+	Matrix<4,4,Precision> adjoint(const Matrix<R,C,P,Accessor>& M) const {
+		SizeMismatch<4,R>::test(4, M.num_rows());
+		SizeMismatch<4,C>::test(4, M.num_cols());
 		Matrix<4,4,Precision> result;
 		for(int i=0; i<4; ++i)
 			result.T()[i] = adjoint(M.T()[i]);
-- 
2.43.0


From 9bcc5f5ab4a2a7576e5b5d7f5f520f5e5c9fb5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 41/76] fix: SIM3::adjoint and SIM3::trinvadjoint take scale
 into account and set all coordinates

---
 TooN/sim3.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index 6ed8ea7..e98dada 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -194,9 +194,11 @@ template<int S, typename P2, typename Accessor>
 inline Vector<7, Precision> SIM3<Precision>::adjoint(const Vector<S,P2, Accessor>& vect) const{
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
+	result[6] = vect[6];
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * (get_scale() * vect.template slice<0,3>());
 	result.template slice<0,3>() += get_translation() ^ result.template slice<3,3>();
+	result.template slice<0,3>() -= result[6] * get_translation();
 	return result;
 }
 
@@ -209,8 +211,9 @@ inline Vector<7, Precision> SIM3<Precision>::trinvadjoint(const Vector<S,P2, Acc
 	SizeMismatch<7,S>::test(7, vect.size());
 	Vector<7, Precision> result;
 	result.template slice<3,3>() = get_rotation() * vect.template slice<3,3>();
-	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>();
+	result.template slice<0,3>() = get_rotation() * vect.template slice<0,3>() / get_scale();
 	result.template slice<3,3>() += get_translation() ^ result.template slice<0,3>();
+	result[6] = vect[6] + get_translation() * result.template slice<0,3>();
 	return result;
 }
 
-- 
2.43.0


From c9fed875ec79f94f630274b964f726999e5bdb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:02 +0000
Subject: [PATCH 42/76] fix: Identity can be assigned to SIM3 of any precision

---
 TooN/sim3.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim3.h b/TooN/sim3.h
index e98dada..64d4711 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -98,8 +98,8 @@ public:
 	}
 	
 	/// Reset back to the identity transform
-	inline SIM3<>& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
-		return *this = SIM3<>();
+	inline SIM3& operator=(const TooN::Operator<TooN::Internal::Identity<TooN::Internal::One>>&) {
+		return *this = SIM3();
 	}
 
 	/// Right-multiply by another SIM3 (concatenate the two transformations)
-- 
2.43.0


From 241e7d229f4e5d392d67b071a9868eff11ad804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 43/76] fix: SIM2::exp and SIM3::exp of vectors of lower
 precision compute the scale in their own precision

---
 TooN/sim2.h | 2 +-
 TooN/sim3.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sim2.h b/TooN/sim2.h
index 971c79b..6a530d2 100644
--- a/TooN/sim2.h
+++ b/TooN/sim2.h
@@ -343,7 +343,7 @@ inline SIM2<Precision> SIM2<Precision>::exp(const Vector<S, PV, Accessor>& mu){
 	result.get_rotation() = SO2<Precision>::exp(theta);
 
 	// scale
-	result.get_scale() = exp(mu[3]);
+	result.get_scale() = exp(Precision(mu[3]));
 
 	// translation
 	const Vector<3, Precision> coeff = Internal::compute_rodrigues_coefficients_sim3<Precision>(mu[3], theta);
diff --git a/TooN/sim3.h b/TooN/sim3.h
index 64d4711..3204391 100644
--- a/TooN/sim3.h
+++ b/TooN/sim3.h
@@ -486,7 +486,7 @@ inline SIM3<Precision> SIM3<Precision>::exp(const Vector<S, P, VA>& mu){
 	SIM3<Precision> result;
 
 	// scale
-	result.get_scale() = exp(mu[6]);
+	result.get_scale() = exp(Precision(mu[6]));
 	
 	// rotation
 	const Vector<3,Precision> w = mu.template slice<3,3>();
-- 
2.43.0


From 394fb0c6b73a82beb96ab58520b4d6eee2394b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:07 +0000
Subject: [PATCH 44/76] fix: SL::ln recovers the coefficients of the diagonal
 generators

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index ca7551a..8b1757a 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -144,7 +144,7 @@ inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
 		v[i] = l(i,i) + last;
-		last = l(i,i);
+		last = v[i];
 	}
 	for(int i = DIAG_LIMIT, row = 0, col = 1; i < SYMM_LIMIT; ++i) {	// calculate symmetric and antisymmetric in one go
 		// do the right thing here to calculate the correct indices !
-- 
2.43.0


From 14c3c5da4a6aabd13edb8d63e4bf8e50f2c2829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 45/76] fix: inverse of SL of single precision

---
 TooN/sl.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 8b1757a..19f069c 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -99,7 +99,7 @@ public:
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
-		const Matrix<N> id = Identity;
+		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
 	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
@@ -139,7 +139,7 @@ inline SL<N, Precision> SL<N, Precision>::exp( const Vector<S,P,B> & v){
 
 template <int N, typename Precision>
 inline Vector<N*N-1, Precision> SL<N, Precision>::ln() const {
-	const Matrix<N> l = TooN::log(my_matrix);
+	const Matrix<N,N,Precision> l = TooN::log(my_matrix);
 	Vector<SL<N,Precision>::dim, Precision> v;
 	Precision last = 0;
 	for(int i = 0; i < DIAG_LIMIT; ++i){	// diagonal elements
-- 
2.43.0


From 5d4efe222de813c01e96bd7b49d5a7d131210dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 46/76] fix: SL of different precisions can be multiplied

---
 TooN/sl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 19f069c..985860b 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -96,13 +96,15 @@ public:
 	/// @arg i number of the generator between 0 and SL::dim -1 inclusive
 	static inline Matrix<N,N,Precision> generator(int);
 
+	template <typename PA, typename PB>
+	inline SL( const SL<N,PA> & a, const SL<N,PB> & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
+
 private:
 	struct Invert {};
 	SL( const SL & from, struct Invert ) {
 		const Matrix<N,N,Precision> id = Identity;
 		my_matrix = gaussian_elimination(from.my_matrix, id);
 	}
-	SL( const SL & a, const SL & b) : my_matrix(a.get_matrix() * b.get_matrix()) {}
 
 	void coerce(){
 		using std::abs;
-- 
2.43.0


From 1f09e92c35fd65c078e13490d9f44118ee99fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 47/76] fix: WLS of long double weights measurements in its own
 precision

---
 TooN/wls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 0a6b33f..7ae9a17 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -100,7 +100,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
 		{
-			double Jw = weight * J[r];
+			Precision Jw = weight * J[r];
 			my_vector[r] += m * Jw;
 			for(int c=r; c < my_C_inv.num_rows(); c++)
 				my_C_inv[r][c] += Jw * J[c];
@@ -158,7 +158,7 @@ public:
 		//Upper right triangle only, for speed
 		for(int r=0; r < J1.size(); r++)
 		{
-			double Jw = weight * J1[r];
+			Precision Jw = weight * J1[r];
 			my_vector[r+index1] += m * Jw;
 			for(int c = r; c < J1.size(); c++)
 				my_C_inv[r+index1][c+index1] += Jw * J1[c];
-- 
2.43.0


From b6546302c297b5885a320d1cf79181d30b26fe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:56 +0000
Subject: [PATCH 48/76] fix: WLS::add_mJ checks the size of the Jacobian

---
 TooN/wls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/wls.h b/TooN/wls.h
index 7ae9a17..59c5fab 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -96,6 +96,7 @@ public:
 	/// @param weight The inverse variance of the measurement (default = 1)
 	template<class B2, class P2>
 	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
+		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
-- 
2.43.0


From 0091ccb05e2445d38291b7e4c4baca4e6e4e912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 49/76] fix: IRLS of precisions other than double

---
 TooN/irls.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 3318fc3..08d699a 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -122,7 +122,7 @@ namespace TooN {
 			Precision ts = Reweight<Precision>::true_scale(m);
 			my_residual += Reweight<Precision>::objective(m);
 
-			WLS<Size>::add_mJ(m,J,scale);
+			WLS<Size,Precision>::add_mJ(m,J,scale);
 
 			Vector<Size,Precision> scaledm(m*ts);
 
@@ -131,7 +131,7 @@ namespace TooN {
 		}
 
 		void operator += (const IRLS& meas){
-			WLS<Size>::operator+=(meas);
+			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
 		}
 
-- 
2.43.0


From 35d16340a08b820ad158d7165e7dda219a791fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 50/76] fix: RobustII::true_scale is w(x) + xw'(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 08d699a..8041c4c 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -57,7 +57,7 @@ namespace TooN {
 		void set_sd(Precision x){ sd_inlier = x*x;} ///<Set the noise standard deviation.
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision d){return d - 2*d*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
 		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
-- 
2.43.0


From d212b301208d89f7df95f85b2fe73febce5a533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 51/76] fix: RobustIII can be used in IRLS

---
 TooN/irls.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index 8041c4c..84fe2ac 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -89,6 +89,12 @@ namespace TooN {
 			double d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
+		///< Returns \f$w(x) + xw'(x)\f$.
+		Precision true_scale(Precision x) const
+		{
+			double d = (1 + x*x/sd_inlier);
+			return reweight(x)*(1 - 3*x*x/sd_inlier)/d;
+		}
 		///< Returns \f$\int xw(x)dx\f$.
 		Precision objective(Precision x) const 
 		{
-- 
2.43.0


From 350984ba0445dc5155cc0946aedfb4f81892955f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 52/76] fix: ILinear::objective is the integral of xw(x)

---
 TooN/irls.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 84fe2ac..7d585f1 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -70,7 +70,7 @@ namespace TooN {
 		void set_sd(Precision){} ///<Set the noise standard deviation (does nothing).
 		inline Precision reweight(Precision){return 1;} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision){return 1;} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return d*d;} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return d*d/2;} ///< Returns \f$\int xw(x)dx\f$.
 	};
 	
 	///A reweighting class where the objective function tends to a 
-- 
2.43.0


From 9f327536d0bad64e3a5a3a5857c5d3e0f973a491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 53/76] fix: IRLS accumulates the true inverse covariance

---
 TooN/irls.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 7d585f1..323647c 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -130,10 +130,8 @@ namespace TooN {
 
 			WLS<Size,Precision>::add_mJ(m,J,scale);
 
-			Vector<Size,Precision> scaledm(m*ts);
-
-			my_true_C_inv += scaledm.as_col() * scaledm.as_row();
-
+			//The Hessian of the objective function
+			my_true_C_inv += (ts * J.as_col()) * J.as_row();
 		}
 
 		void operator += (const IRLS& meas){
-- 
2.43.0


From 2ace8c3aad262ba8367a4516cb6e724922b78e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 54/76] fix: merging IRLS adds the residuals

---
 TooN/irls.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/irls.h b/TooN/irls.h
index 323647c..0454560 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -137,6 +137,7 @@ namespace TooN {
 		void operator += (const IRLS& meas){
 			WLS<Size,Precision>::operator+=(meas);
 			my_true_C_inv += meas.my_true_C_inv;
+			my_residual += meas.my_residual;
 		}
 
 
-- 
2.43.0


From 15c8a0f042f1c19ee423513894d3f3bb443bed05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 55/76] fix: IRLS of static size takes Jacobians of dynamic
 size

---
 TooN/wls.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TooN/wls.h b/TooN/wls.h
index 59c5fab..1f1796a 100644
--- a/TooN/wls.h
+++ b/TooN/wls.h
@@ -94,9 +94,9 @@ public:
 	/// @param m The value of the measurement
 	/// @param J The Jacobian for the measurement \f$\frac{\partial\text{m}}{\partial\text{param}_i}\f$
 	/// @param weight The inverse variance of the measurement (default = 1)
-	template<class B2, class P2>
-	inline void add_mJ(Precision m, const Vector<Size, P2, B2>& J, Precision weight = 1) {
-		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), J.size());
+	template<int Size2, class P2, class B2>
+	inline void add_mJ(Precision m, const Vector<Size2, P2, B2>& J, Precision weight = 1) {
+		SizeMismatch<Size,Size2>::test(my_C_inv.num_rows(), J.size());
 		
 		//Upper right triangle only, for speed
 		for(int r=0; r < my_C_inv.num_rows(); r++)
-- 
2.43.0


From 54c48d45ddece34dff910f5896b78588da18ab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:19 +0000
Subject: [PATCH 56/76] fix: reweighting functions compute in their own
 precision

---
 TooN/irls.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/TooN/irls.h b/TooN/irls.h
index 0454560..a17eaf5 100644
--- a/TooN/irls.h
+++ b/TooN/irls.h
@@ -42,10 +42,10 @@ namespace TooN {
 	template<typename Precision>
 	struct RobustI {
 		void set_sd(Precision x){ sd_inlier = x;} ///<Set the noise standard deviation.
-		double sd_inlier; ///< The inlier standard deviation, \f$\sigma\f$.
-		inline Precision reweight(Precision x) {return 1/(sd_inlier+fabs(x));}  ///< Returns \f$w(x)\f$.
-		inline Precision true_scale(Precision x) {return reweight(x) - fabs(x)*reweight(x)*reweight(x);}  ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision x) {return fabs(x) + sd_inlier*::log(sd_inlier*reweight(x));}  ///< Returns \f$\int xw(x)dx\f$.
+		Precision sd_inlier; ///< The inlier standard deviation, \f$\sigma\f$.
+		inline Precision reweight(Precision x) {return 1/(sd_inlier+std::abs(x));}  ///< Returns \f$w(x)\f$.
+		inline Precision true_scale(Precision x) {return reweight(x) - std::abs(x)*reweight(x)*reweight(x);}  ///< Returns \f$w(x) + xw'(x)\f$.
+		inline Precision objective(Precision x) {return std::abs(x) + sd_inlier*std::log(sd_inlier*reweight(x));}  ///< Returns \f$\int xw(x)dx\f$.
 	};
 
 	/// Robust reweighting (type II) for IRLS.
@@ -58,7 +58,7 @@ namespace TooN {
 		Precision sd_inlier; ///< The inlier standard deviation squared, \f$\sigma\f$.
 		inline Precision reweight(Precision d){return 1/(sd_inlier+d*d);} ///< Returns \f$w(x)\f$.
 		inline Precision true_scale(Precision d){return reweight(d) - 2*d*d*reweight(d)*reweight(d);} ///< Returns \f$w(x) + xw'(x)\f$.
-		inline Precision objective(Precision d){return 0.5 * ::log(1 + d*d/sd_inlier);} ///< Returns \f$\int xw(x)dx\f$.
+		inline Precision objective(Precision d){return std::log(1 + d*d/sd_inlier)/2;} ///< Returns \f$\int xw(x)dx\f$.
 	};
 
 	/// A reweighting class representing no reweighting in IRLS.
@@ -86,13 +86,13 @@ namespace TooN {
 		/// Returns \f$w(x)\f$.
 		Precision reweight(Precision x) const
 		{
-			double d = (1 + x*x/sd_inlier);
+			Precision d = (1 + x*x/sd_inlier);
 			return 1/(d*d);
 		}	
 		///< Returns \f$w(x) + xw'(x)\f$.
 		Precision true_scale(Precision x) const
 		{
-			double d = (1 + x*x/sd_inlier);
+			Precision d = (1 + x*x/sd_inlier);
 			return reweight(x)*(1 - 3*x*x/sd_inlier)/d;
 		}
 		///< Returns \f$\int xw(x)dx\f$.
-- 
2.43.0


From 24030e8250d3d97abf55f3c1ac4711b6c885ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 57/76] fix: numerical Hessians of three and more variables
 evaluate cross derivatives at the given point

---
 TooN/functions/derivatives.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TooN/functions/derivatives.h b/TooN/functions/derivatives.h
index 9749461..ed50fea 100644
--- a/TooN/functions/derivatives.h
+++ b/TooN/functions/derivatives.h
@@ -270,6 +270,8 @@ namespace TooN{
 				x[i] = v[i] - h;
 				x[j] = v[j] - h;
 				double d = f(x);
+				x[i] = v[i];
+				x[j] = v[j];
 
 				return (a-b-c+d) / (4*h*h);
 			}
-- 
2.43.0


From 4c7c40a172f5b4082b0e3d3607e0eee0942dd059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:22 +0000
Subject: [PATCH 58/76] fix: signs of the eigenvectors of 3x3 matrices

---
 TooN/SymEigen.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TooN/SymEigen.h b/TooN/SymEigen.h
index 2ae8146..bcf1ebb 100644
--- a/TooN/SymEigen.h
+++ b/TooN/SymEigen.h
@@ -263,6 +263,12 @@ namespace Internal{
 			l[isolated] = v * s * v;
 
 			ev = l * size + Ones * mean;
+
+			//Of the two possible signs of each vector, choose the one which the
+			//last row of the matrix of cofactors of s - l * Identity has.
+			for(int n=0; n < 3; n++)
+				if(n == 1 ? eig[n][2] > 0 : eig[n][2] < 0)
+					eig[n] = -eig[n];
 		}
 	};
 
-- 
2.43.0


From 19896ec9abe4a3a5a9ffeefe69349fd2e59f0c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 59/76] fix: golden_section.h compiles

---
 TooN/optimization/golden_section.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index 3a4a2d3..f1e9941 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -48,11 +48,11 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, Precision fb, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		using std::abs;
 		//The golden ratio:
-		const Precision g = (3.0 - sqrt(5))/2;
+		const Precision g = (3.0 - std::sqrt(5.0))/2;
 
 		Precision x1, x2, fx1, fx2;
 
@@ -110,9 +110,9 @@ namespace TooN
 
 		
 		if(fx1 < fx2)
-			return makeVector<Precision>(x1, fx1);
+			return makeVector(x1, fx1);
 		else
-			return makeVector<Precision>(x2, fx2);
+			return makeVector(x2, fx2);
 	}
 
 	/// golden_section_search performs a golden section search line minimization
@@ -127,7 +127,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = sqrt(numeric_limits<Precision>::epsilon()))
+	template<class Functor, class Precision> Vector<2, Precision> golden_section_search(Precision a, Precision b, Precision c, const Functor& func, int maxiterations, Precision tol = std::sqrt(numeric_limits<Precision>::epsilon()))
 	{
 		return golden_section_search(a, b, c, func(b), func, maxiterations, tol);
 	}
-- 
2.43.0


From e883329f03b974f3d08a41b92c650f933c1182f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:14 +0000
Subject: [PATCH 60/76] fix: golden_section_search stops after the maximum
 number of iterations

---
 TooN/optimization/golden_section.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TooN/optimization/golden_section.h b/TooN/optimization/golden_section.h
index f1e9941..42893c4 100644
--- a/TooN/optimization/golden_section.h
+++ b/TooN/optimization/golden_section.h
@@ -82,6 +82,7 @@ namespace TooN
 		int itnum = 1; //We've already done one iteration.
 		while(abs(c-a) > tol * (abs(x2)+abs(x1)) && itnum < maxiterations)
 		{
+			itnum++;
 			if(fx1 > fx2)
 			{
 				// Bracketing does:
-- 
2.43.0


From 375a2eb357b339eff74b7077b664fb7c5f07be90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:15 +0000
Subject: [PATCH 61/76] fix: brent_line_search can be called with its default
 tolerance

---
 TooN/optimization/brent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 3e60251..6fc042c 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -52,7 +52,7 @@ namespace TooN
 	/// @return The minima position is returned as the first element of the vector,
 	///         and the minimal value as the second element.
 	/// @ingroup gOptimize
-	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
+	template<class Functor, class Precision> Vector<2, Precision> brent_line_search(Precision a, Precision x, Precision b, Precision fx, const Functor& func, int maxiterations, Precision tolerance = std::sqrt(numeric_limits<Precision>::epsilon()), Precision epsilon = numeric_limits<Precision>::epsilon())
 	{
 		using std::min;
 		using std::max;
-- 
2.43.0


From 2538328997acb85cbf49fcb5595a63447d4530fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 62/76] fix: brent_line_search does not drop the part of the
 bracket with the minimum after a step of almost nothing

---
 TooN/optimization/brent.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index 6fc042c..ad6f752 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -140,6 +140,12 @@ namespace TooN
 					//Parabolic fit was good. Shift d and e
 					e = d;
 					d = p/q;
+
+					//The errors of func hide the outcome of steps below the
+					//tolerance, and the bracket must not be shrunk on account
+					//of them. Instead, step into the larger part of the bracket.
+					if(abs(d) < tol1)
+						d = x < xm ? min(tol1, (b-x)/2) : -min(tol1, (x-a)/2);
 				}
 			}
 			else
-- 
2.43.0


From 9f6d59ea700d2f06b447598cdeca0b57a45a7f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 63/76] fix: DownhillSimplex of single precision evaluates the
 function at the vertices it stores

---
 TooN/optimization/downhill_simplex.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TooN/optimization/downhill_simplex.h b/TooN/optimization/downhill_simplex.h
index e7faa37..5adb612 100644
--- a/TooN/optimization/downhill_simplex.h
+++ b/TooN/optimization/downhill_simplex.h
@@ -208,7 +208,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			int worst = get_worst();
 			Precision second_worst_val=-HUGE_VAL, bestval = HUGE_VAL, worst_val = values[worst];
 			int best=0;
-			Vector<N> x0 = Zeros(simplex.num_cols());
+			Vector<N, Precision> x0 = Zeros(simplex.num_cols());
 
 
 			for(int i=0; i < simplex.num_rows(); i++)
@@ -232,13 +232,13 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 
 
 			//Reflect the worst point about the centroid.
-			Vector<N> xr = (1 + alpha) * x0 - alpha * simplex[worst];
+			Vector<N, Precision> xr = (1 + alpha) * x0 - alpha * simplex[worst];
 			Precision fr = func(xr);
 
 			if(fr < bestval)
 			{
 				//If the new point is better than the smallest, then try expanding the simplex.
-				Vector<N> xe = rho * xr + (1-rho) * x0;
+				Vector<N, Precision> xe = rho * xr + (1-rho) * x0;
 				Precision fe = func(xe);
 
 				//Keep whichever is best
@@ -271,7 +271,7 @@ template<int N=-1, typename Precision=double> class DownhillSimplex
 			//a bit.
 			if(fr < worst_val)
 			{
-				Vector<N> xc = (1 + gamma) * x0 - gamma * simplex[worst];
+				Vector<N, Precision> xc = (1 + gamma) * x0 - gamma * simplex[worst];
 				Precision fc = func(xc);
 
 				//If this helped, use it
-- 
2.43.0


From e4759096dfbfbe005a651c83425085a6ec5cad2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:40 +0000
Subject: [PATCH 64/76] fix: ConjugateGradient accepts a bracket whose first
 two values are equal

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index c148222..df643bc 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -356,7 +356,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		else
 		{
 			assert(a < b && b < c);
-			assert(a_val > b_val && b_val < c_val);
+			assert(a_val >= b_val && b_val < c_val);
 
 			//Find the real minimum
 			Vector<2, Precision>  m = brent_line_search(a, b, c, b_val, line, linesearch_max_iterations, linesearch_tolerance, linesearch_epsilon);
-- 
2.43.0


From e97e9c297b048b315e906779d65fabac0db71559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 65/76] fix: ConjugateGradient moves on when the function is
 not a number past the last point of the line search

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index df643bc..88fdf7f 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -345,7 +345,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 
 		//We should have a bracket here
 
-		if(c < b)
+		if(c_val <= b_val)
 		{
 			//Failed to bracket due to NaN, so c is the best known point.
 			//Simply go there.
-- 
2.43.0


From 95745843fa386c4d4b777d55737e97815ad009e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 66/76] fix: ConjugateGradient stops after the maximum number
 of iterations

---
 TooN/optimization/conjugate_gradient.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index 88fdf7f..f68d8ac 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -375,7 +375,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	bool finished()
 	{
 		using std::abs;
-		return iterations > max_iterations || 2*abs(y - old_y) <= tolerance * (abs(y) + abs(old_y) + epsilon);
+		return iterations >= max_iterations || 2*abs(y - old_y) <= tolerance * (abs(y) + abs(old_y) + epsilon);
 	}
 
 	///After an iteration, update the gradient and conjugate using the
-- 
2.43.0


From db3a2781fb7d186ec6b8dd15f3999c0a0e90e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:41 +0000
Subject: [PATCH 67/76] fix: ConjugateGradient of single precision

---
 TooN/optimization/conjugate_gradient.h | 42 +++++++++++++-------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/TooN/optimization/conjugate_gradient.h b/TooN/optimization/conjugate_gradient.h
index f68d8ac..e773c76 100644
--- a/TooN/optimization/conjugate_gradient.h
+++ b/TooN/optimization/conjugate_gradient.h
@@ -99,7 +99,7 @@ namespace TooN{
 
 		if(b_val < a_val) //We've gone downhill, so keep searching until we go back up
 		{
-			double last_good_lambda = lambda;
+			Precision last_good_lambda = lambda;
 			
 			for(;;)
 			{
@@ -126,8 +126,8 @@ namespace TooN{
 			//Back up: this will not attempt to ensure a bracket
 			if(std::isnan(c_val))
 			{
-				double bad_lambda=lambda;
-				double l=1;
+				Precision bad_lambda=lambda;
+				Precision l=1;
 
 				for(;;)
 				{
@@ -167,7 +167,7 @@ namespace TooN{
 			}
 		}
 
-		Matrix<3,2> ret;
+		Matrix<3,2,Precision> ret;
 		ret[0] = makeVector(a, a_val);
 		ret[1] = makeVector(b, b_val);
 		ret[2] = makeVector(c, c_val);
@@ -225,13 +225,13 @@ will not be necessary.
 template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 {
 	const int size;      ///< Dimensionality of the space.
-	Vector<Size> g;      ///< Gradient vector used by the next call to iterate()
-	Vector<Size> h;      ///< Conjugate vector to be searched along in the next call to iterate()
-	Vector<Size> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
-	Vector<Size> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
-	Vector<Size> old_h;  ///< Conjugate vector searched along in the last call to iterate()
-	Vector<Size> x;      ///< Current position (best known point)
-	Vector<Size> old_x;  ///< Previous best known point (not set at construction)
+	Vector<Size, Precision> g;      ///< Gradient vector used by the next call to iterate()
+	Vector<Size, Precision> h;      ///< Conjugate vector to be searched along in the next call to iterate()
+	Vector<Size, Precision> minus_h;///< negative of h as this is required to be passed into a function which uses references (so can't be temporary)
+	Vector<Size, Precision> old_g;  ///< Gradient vector used to compute $h$ in the last call to iterate()
+	Vector<Size, Precision> old_h;  ///< Conjugate vector searched along in the last call to iterate()
+	Vector<Size, Precision> x;      ///< Current position (best known point)
+	Vector<Size, Precision> old_x;  ///< Previous best known point (not set at construction)
 	Precision y;         ///< Function at \f$x\f$
 	Precision old_y;     ///< Function at  old_x
 
@@ -252,7 +252,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  Function to compute \f$\nabla f(x)\f$
-	template<class Func, class Deriv> ConjugateGradient(const Vector<Size>& start, const Func& func, const Deriv& deriv)
+	template<class Func, class Deriv> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Deriv& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -263,7 +263,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  Function \e f  to compute \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	template<class Func> ConjugateGradient(const Vector<Size>& start, const Func& func, const Vector<Size>& deriv)
+	template<class Func> ConjugateGradient(const Vector<Size, Precision>& start, const Func& func, const Vector<Size, Precision>& deriv)
 	: size(start.size()),
 	  g(size),h(size),minus_h(size),old_g(size),old_h(size),x(start),old_x(size)
 	{
@@ -274,7 +274,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///@param start Starting point, \e x
 	///@param func  \f$f(x)\f$
 	///@param deriv  \f$\nabla f(x)\f$
-	void init(const Vector<Size>& start, const Precision& func, const Vector<Size>& deriv)
+	void init(const Vector<Size, Precision>& start, const Precision& func, const Vector<Size, Precision>& deriv)
 	{
 
 		using std::numeric_limits;
@@ -327,13 +327,13 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 		//First bracket a minimum.
 		Matrix<3,2,Precision> bracket = Internal::bracket_minimum_forward(y, line, bracket_initial_lambda, bracket_epsilon);
 		
-		double a = bracket[0][0];
-		double b = bracket[1][0];
-		double c = bracket[2][0];
+		Precision a = bracket[0][0];
+		Precision b = bracket[1][0];
+		Precision c = bracket[2][0];
 
-		double a_val = bracket[0][1];
-		double b_val = bracket[1][1];
-		double c_val = bracket[2][1];
+		Precision a_val = bracket[0][1];
+		Precision b_val = bracket[1][1];
+		Precision c_val = bracket[2][1];
 
 		old_y = y;
 		old_x = x;
@@ -386,7 +386,7 @@ template<int Size=Dynamic, class Precision=double> struct ConjugateGradient
 	///- h
 	///- old_h
 	///@param grad The derivatives of the function at \e x
-	void update_vectors_PR(const Vector<Size>& grad)
+	void update_vectors_PR(const Vector<Size, Precision>& grad)
 	{
 		//Update the position, gradient and conjugate directions
 		old_g = g;
-- 
2.43.0


From b64fa8881be0e8afc69e70b18f5193e523de45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:43 +0000
Subject: [PATCH 68/76] fix: rotation between two directions of short vectors

---
 TooN/so3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/so3.h b/TooN/so3.h
index 850528e..1d3a733 100644
--- a/TooN/so3.h
+++ b/TooN/so3.h
@@ -79,7 +79,7 @@ public:
 		SizeMismatch<3,S1>::test(3, a.size());
 		SizeMismatch<3,S2>::test(3, b.size());
 		Vector<3, Precision> n = Vector<3, P1>(a) ^ Vector<3, P2>(b);
-		if(norm_sq(n) == 0) {
+		if(n[0] == 0 && n[1] == 0 && n[2] == 0) {
 			//check that the vectors are in the same direction if cross product is 0. If not,
 			//this means that the rotation is 180 degrees, which leads to an ambiguity in the rotation axis.
 			assert(a*b>=0);
-- 
2.43.0


From b5a2f9f3e74eb263e255e233711dc45170277f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 69/76] fix: SL of odd dimension from a matrix of negative
 determinant

---
 TooN/sl.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index 985860b..dba20d7 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -111,7 +111,11 @@ private:
 		Precision det = determinant(my_matrix);
 		assert(abs(det) > 0);
         using std::pow;
-		my_matrix /= pow(det, 1.0/N);
+		// the odd root of a negative number is negative
+		if(N % 2 == 1 && det < 0)
+			my_matrix /= -pow(-det, 1.0/N);
+		else
+			my_matrix /= pow(det, 1.0/N);
 	}
 
 	/// these constants indicate which parts of the parameter vector 
-- 
2.43.0


From 9096bec084ab7b4e88c5dd302eec9f684c42ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:04 +0000
Subject: [PATCH 70/76] fix: SL operator*= returns a reference

---
 TooN/sl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/sl.h b/TooN/sl.h
index dba20d7..95c97fd 100644
--- a/TooN/sl.h
+++ b/TooN/sl.h
@@ -82,7 +82,7 @@ public:
 
 	/// right multiplies this SL with another one
 	template <typename P>
-	SL operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
+	SL & operator*=( const SL<N,P> & rhs) { *this = *this*rhs; return *this; }
 
 	/// exponentiates a vector in the Lie algebra to compute the corresponding element
 	/// @arg v a vector of dimension SL::dim
-- 
2.43.0


From 4b6ba65e71b2a0a375f1bf136546531bed474dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:53 +0000
Subject: [PATCH 71/76] fix: Brent line search of a function with infinite
 values

---
 TooN/optimization/brent.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/optimization/brent.h b/TooN/optimization/brent.h
index ad6f752..6d77df0 100644
--- a/TooN/optimization/brent.h
+++ b/TooN/optimization/brent.h
@@ -124,7 +124,7 @@ namespace TooN
 				//to be accepted. 
 				// Also, we want the step to be smaller than half the old one. So:
 
-				if(q == 0 || x + p/q < a || x+p/q > b || abs(p/q) > abs(e/2))
+				if(q == 0 || !(x + p/q >= a && x+p/q <= b && abs(p/q) <= abs(e/2)))
 				{
 					//Parabolic fit no good. Take a golden section step instead
 					//and reset d and e.
-- 
2.43.0


From adafe921d641803f7c5a6a3873c487a9cc80c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:16 +0000
Subject: [PATCH 72/76] fix: derivatives of vectors and matrices sized at run
 time

---
 TooN/functions/fadbad.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TooN/functions/fadbad.h b/TooN/functions/fadbad.h
index 0cd3315..89c38fc 100644
--- a/TooN/functions/fadbad.h
+++ b/TooN/functions/fadbad.h
@@ -83,8 +83,8 @@ inline Vector<N, fadbad::F<P,D> > make_fad_vector( const Vector<N, P, A> & val,
 
 template <unsigned D, typename P, int N, typename A>
 inline Vector<N, P> get_derivative( const Vector<N, fadbad::F<P,D>, A> & val, const int dim ){
-	Vector<N, P> r;
-	for(int i = 0; i < N; ++i)
+	Vector<N, P> r(val.size());
+	for(int i = 0; i < val.size(); ++i)
 		r[i] = val[i].deriv(dim);
 	return r;
 }
@@ -99,9 +99,9 @@ inline Matrix<N, D, P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val
 
 template <int R, int C, typename P, unsigned D, typename A>
 inline Matrix<R, C, P> get_derivative( const Matrix<R,C, fadbad::F<P, D>, A> & val, const int dim ){
-	Matrix<R, C, P> result;
-	for(int r = 0; r < R; ++r)
-		for(int c = 0; c < C; ++c)
+	Matrix<R, C, P> result(val.num_rows(), val.num_cols());
+	for(int r = 0; r < val.num_rows(); ++r)
+		for(int c = 0; c < val.num_cols(); ++c)
 			result[r][c] = val[r][c].deriv(dim);
 	return result;
 }
-- 
2.43.0


From 8fe9ae0d7042b77f8c8b90a7e86a9196cf556288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:16 +0000
Subject: [PATCH 73/76] fix: Jacobian with a number of derivatives known at run
 time

---
 TooN/functions/fadbad.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/TooN/functions/fadbad.h b/TooN/functions/fadbad.h
index 89c38fc..883ca2c 100644
--- a/TooN/functions/fadbad.h
+++ b/TooN/functions/fadbad.h
@@ -90,9 +90,13 @@ inline Vector<N, P> get_derivative( const Vector<N, fadbad::F<P,D>, A> & val, co
 }
 
 template <unsigned D, typename P, int N, typename A>
-inline Matrix<N, D, P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
-	Matrix<N, D, P> result(N, val[0].size());
-	for(unsigned i = 0; i < val[0].size(); ++i)
+inline Matrix<N, (D ? int(D) : int(Dynamic)), P> get_jacobian( const Vector<N, fadbad::F<P, D>,  A> & val ){
+	// With D=0, the number of derivatives is known only at run time, and is 0 for constants
+	unsigned size = D;
+	for(int i = 0; i < val.size(); ++i)
+		size = std::max(size, unsigned(val[i].size()));
+	Matrix<N, (D ? int(D) : int(Dynamic)), P> result(val.size(), size);
+	for(unsigned i = 0; i < size; ++i)
 		result.T()[i] = get_derivative( val, i );
 	return result;
 }
-- 
2.43.0


From 09a7edd3dbf078b2398169179fdbd2a46fd8a66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:46 +0000
Subject: [PATCH 74/76] fix: TOON_INITIALIZE_RANDOM with compilers that reject
 narrowing

---
 TooN/internal/debug.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TooN/internal/debug.hh b/TooN/internal/debug.hh
index fd482a9..2878d14 100644
--- a/TooN/internal/debug.hh
+++ b/TooN/internal/debug.hh
@@ -87,7 +87,7 @@ namespace Internal
 		template<class P> static void debug_initialize(P* data, int n)
 		{
 			//Get a random seed. Precision limited to 1 second.
-			static intbits random = { ((std::time(NULL) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff};
+			static intbits random = { static_cast<unsigned long>(((std::time(NULL) & 0xffffffff) *1664525L + 1013904223L)& 0xffffffff)};
 			unsigned char* cdata = reinterpret_cast<unsigned char*>(data);
 
 			size_t bytes = sizeof(P)*n, i=0;
-- 
2.43.0


From d6fcaa67e0dfab0fc357292dab1632517765f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:59 +0000
Subject: [PATCH 75/76] fix: static/dynamic mismatch in slices of resizable
 vectors is detected

---
 TooN/internal/slice_error.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/slice_error.hh b/TooN/internal/slice_error.hh
index 882526e..6ed18ff 100644
--- a/TooN/internal/slice_error.hh
+++ b/TooN/internal/slice_error.hh
@@ -105,12 +105,12 @@ namespace Internal
 
 			BadSlice<(Size != Dynamic && Size != Resizable && Start != Dynamic && Length != Dynamic && Start + Length > Size)>::check();
 			#ifndef TOON_NDEBUG_MISMATCH
-				if(Start != Dynamic && Size != Resizable && Start != start)
+				if(Start != Dynamic && Start != start)
 				{
 					std::cerr << "TooN slice: mismatch between static and dynamic start.\n";
 					std::abort();
 				}
-				if(Length != Dynamic && Size != Resizable && Length != length)
+				if(Length != Dynamic && Length != length)
 				{
 					std::cerr << "TooN slice: mismatch between static and dynamic length.\n";
 					std::abort();
-- 
2.43.0


From 28c150c6e286ea8e632ab181ba932bafb577d28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:16 +0000
Subject: [PATCH 76/76] fix: dynamic vectors which have been moved from can be
 assigned to

---
 TooN/internal/allocator.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/TooN/internal/allocator.hh b/TooN/internal/allocator.hh
index 0335b1c..8c9a078 100644
--- a/TooN/internal/allocator.hh
+++ b/TooN/internal/allocator.hh
@@ -251,11 +251,18 @@ template<class Precision> struct VectorAlloc<Dynamic, Precision>: public Default
 			return my_data;
 		};
 
+		//The size never changes, but a vector which has been moved
+		//from needs new memory before it is assigned to.
 		void try_destructive_resize(int)
-		{}
+		{
+			if(!my_data)
+				my_data = new Precision[my_size];
+		}
 
 		template<class Op> void try_destructive_resize(const Operator<Op>&) 
-		{}
+		{
+			try_destructive_resize(my_size);
+		}
 };
 
 
-- 
2.43.0

