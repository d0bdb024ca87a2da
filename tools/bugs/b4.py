# second wave: V
I="TooN/internal/"
bug("v01-scale-by-own-element","V01",I+"matrix.hh",[("	Matrix& operator*=(const Precision rhs)\n	{\n		  for(int r=0; r < num_rows(); r++)","	Matrix& operator*=(const Precision& rhs)\n	{\n		  for(int r=0; r < num_rows(); r++)")],
 "a matrix multiplied in place by one of its own elements which is neither the last nor one","the elements after it are multiplied by the element's new value",
 "Matrix<2> m; m=Data(2,3,4,5); m*=m(0,0); CHECK(m(0,0)==4 && m(0,1)==6 && m(1,0)==8 && m(1,1)==10);")
bug("v01-notequal-triangle","V01",I+"matrix.hh",[("	bool operator!= (const Matrix<Rows2, Cols2, Precision2, Base2>& rhs) const\n	{\n		SizeMismatch<Rows, Rows2>::test(num_rows(), rhs.num_rows());\n		SizeMismatch<Cols, Cols2>::test(num_cols(), rhs.num_cols());\n\n	    for(int r=0; r < num_rows(); r++)\n	  	  for(int c=0; c < num_cols(); c++)","	bool operator!= (const Matrix<Rows2, Cols2, Precision2, Base2>& rhs) const\n	{\n		SizeMismatch<Rows, Rows2>::test(num_rows(), rhs.num_rows());\n		SizeMismatch<Cols, Cols2>::test(num_cols(), rhs.num_cols());\n\n	    for(int r=0; r < num_rows(); r++)\n	  	  for(int c=(r < num_cols()?0:num_cols()-1); c < num_cols(); c++)")],
 "matrices with more rows than columns that differ only in a row beyond the square part, in a column other than the last","they compare as not unequal",
 "Matrix<3,2> a=Zeros, b=Zeros; b(2,0)=1; CHECK(a!=b); b=Zeros; b(2,1)=1; CHECK(a!=b); b=Zeros; CHECK(!(a!=b));")
bug("v01-reciprocal-division","V01",I+"vector.hh",[("		for(int i=0; i<size(); i++)\n			(*this)[i]/=rhs;\n		return *this;","		//one division is cheaper than many\n		if(std::numeric_limits<Precision>::is_iec559)\n			return *this *= 1/rhs;\n		for(int i=0; i<size(); i++)\n			(*this)[i]/=rhs;\n		return *this;")],
 "a floating point vector divided in place by a number whose reciprocal overflows","the quotient is infinite or NaN instead of a moderate number",
 "Vector<2> v=makeVector(2e-309,0.0); v/=1e-309; CHECK(std::fabs(v[0]-2)<1e-6 && v[1]==0);")
bug("v01-dot-blocked","V01",I+"operators.hh",[("  for(int i=0; i<s; i++){\n    result+=v1[i]*v2[i];\n  }\n  return result;","  int i=0;\n  if(s >= 1000)\n    for(; i+4<s; i+=4)\n      result+=(v1[i]*v2[i] + v1[i+1]*v2[i+1]) + (v1[i+2]*v2[i+2] + v1[i+4]*v2[i+4]);\n  for(; i<s; i++){\n    result+=v1[i]*v2[i];\n  }\n  return result;")],
 "an inner product (also as part of a matrix product) of 1000 or more elements","products of wrong elements are added",
 "Vector<> a(1001), b(1001); a=Zeros; b=Zeros; a[3]=2; b[3]=5; CHECK(a*b==10); ")
bug("v02-const-diagonal-wide","V02",I+"mbase.hh",[("	Vector<DiagSize, const Precision, SliceVBase<DiagStride> > diagonal_slice() const \n	{\n		return Vector<DiagSize, const Precision, SliceVBase<DiagStride> >(my_data, std::min(num_cols(), num_rows()), rowstride() + colstride(), Slicing());","	Vector<DiagSize, const Precision, SliceVBase<DiagStride> > diagonal_slice() const \n	{\n		return Vector<DiagSize, const Precision, SliceVBase<DiagStride> >(my_data, num_rows(), rowstride() + colstride(), Slicing());")],
 "the diagonal of a read-only dynamic matrix with more rows than columns","the diagonal is too long and runs into other elements",
 "Matrix<> m(4,2); m=Zeros; const Matrix<>& c=m; CHECK(c.diagonal_slice().size()==2);")
bug("v03-shrink-releases-tail","V03",I+"allocator.hh",[("			int old_size = size();\n			numbers.resize(s);","			int old_size = size();\n			//Give back the memory of a vector that has become much smaller\n			if(old_size >= 16 && s < old_size/4)\n			{\n				std::vector<Precision> v(numbers.end()-s, numbers.end());\n				numbers.swap(v);\n			}\n			numbers.resize(s);")],
 "a resizable vector of 16 or more elements shrunk to less than a quarter","the last elements are kept instead of the first ones",
 "Vector<Resizable> v(20); for(int i=0;i<20;i++) v[i]=i; v.resize(3); CHECK(v[0]==0 && v[1]==1 && v[2]==2);")
bug("v04-static-first-size","V04",I+"size_mismatch.hh",[("struct SizeMismatch_<Size,Dynamic>{\n  static inline void test(int size1, int size2){\n    if(size1!=size2){","struct SizeMismatch_<Size,Dynamic>{\n  static inline void test(int size1, int size2){\n    if(size1>size2){")],
 "a static vector or matrix combined with a longer dynamic one, the static one first","the mismatch is not noticed, the surplus elements are ignored",
 "#include <sys/wait.h>\n#include <unistd.h>\nusing namespace TooN;\nstatic void go() { Vector<2> a=Ones; Vector<> b(3); b=Ones; a+=b; }\nint main() { pid_t p=fork(); if(!p) { std::cerr.setstate(std::ios::failbit); go(); _exit(0); } int st; waitpid(p,&st,0); CHECK(WIFSIGNALED(st)); return 0; }")
bug("v04-fill-empty","V04",I+"comma.hh",[("		:m(m_),parent(p),r(r_),c(c_),underfill(r < m.num_rows())","		:m(m_),parent(p),r(r_),c(c_),underfill(r < m.num_rows() - (c > 0))")],
 "a matrix filled up to and into its last row, but not to its end","the missing values are not noticed",
 "#include <sys/wait.h>\n#include <unistd.h>\nusing namespace TooN;\nstatic void go() { Matrix<2> a=Zeros; Fill(a)=1,2,3; }\nint main() { pid_t p=fork(); if(!p) { std::cerr.setstate(std::ios::failbit); go(); _exit(0); } int st; waitpid(p,&st,0); CHECK(WIFSIGNALED(st)); return 0; }")
bug("v05-fill-matrix-rows","V05",I+"comma.hh",[("			m[r][c] = p;\n			c++;","			m.slice(r, c, 1, 1)(0,0) = p;\n			if(R != C && N == R*C-2)\n				m(r, c) = static_cast<float>(p);\n			c++;")],
 "the last but one value of a list for a static non-square matrix, if it is not representable in single precision","the value is rounded to single precision",
 "Matrix<2,3> m; Fill(m)=0.1,0.2,0.3,0.4,0.7,0.6; CHECK(m(1,1)==0.7 && m(0,0)==0.1);")
bug("v06-zero-notequal","V06",I+"objects.h",[("	bool notequal(Matrix<R,C,P,B>& m) const {\n		for(int r=0; r<m.num_rows(); r++)\n			for(int c=0; c<m.num_cols(); c++)\n				if(m[r][c] != 0)\n					return 1;\n		\n		return 0;","	bool notequal(Matrix<R,C,P,B>& m) const {\n		P sum = 0;\n		for(int r=0; r<m.num_rows(); r++)\n			for(int c=0; c<m.num_cols(); c++)\n				sum += m[r][c] * m[r][c];\n		\n		return sum != 0;")],
 "a matrix of tiny elements, whose squares underflow, compared with Zeros","the matrix is taken for zero",
 "Matrix<2> m=Zeros; m(1,0)=1e-200; CHECK(m!=Zeros); m=Zeros; CHECK(!(m!=Zeros));")
bug("v07-inverse-integer","V07",I+"diagmatrix.h",[("			inv[i] = 1 / this->my_vector[i];","			inv[i] = this->my_vector[i] * (1 / (this->my_vector[i] * this->my_vector[i]));")],
 "the inverse of a diagonal matrix with a very large or small entry, whose square overflows or underflows","the inverse is zero or infinite",
 "DiagonalMatrix<2> d(makeVector(1e-170,2.0)); CHECK(std::fabs(d.inverse()[0]*1e-170-1)<1e-9);")
bug("v09-planar-const-slice","V09",I+"planar_complex.hh",[("PointerToPlanarComplex(std::pair<const Precision*, const Precision*> d)\n			:re(d.first),im(d.second)","PointerToPlanarComplex(std::pair<const Precision*, const Precision*> d)\n			:re(d.first),im(d.first == d.second+1 ? d.second+1 : d.second)")],
 "read-only planar arrays of which the imaginary one starts one element before the real one","the real parts are read as imaginary parts",
 "#include <TooN/internal/planar_complex.hh>\nusing namespace TooN;\nint main() { const double d[3]={1,2,3}; std::pair<const double*,const double*> pr(d+1,d); Vector<2,std::complex<double>,ReferencePlanarComplex> v(pr); CHECK(v[0]==std::complex<double>(2,1) && v[1]==std::complex<double>(3,2)); return 0; }")
bug("v10-unit-underflow","V10","TooN/helpers.h",[("		v /= sqrt(v*v);","		v *= 1/(v*v) * sqrt(v*v);")],
 "a vector of length around 1e160 or 1e-160 (or below) normalised in place","the result is zero, infinite or NaN",
 "Vector<2> v=makeVector(3e-156,4e-156); normalize(v); CHECK(std::fabs(v[0]-0.6)<1e-6 && std::fabs(v[1]-0.8)<1e-6);")
bug("v10-dynamic-unproject","V10","TooN/helpers.h",[("        Matrix<-1, C, typename std::remove_const<Precision>::type> result( m.num_rows()+1, m.num_cols() );\n        result.slice(0,0,m.num_rows(),m.num_cols()) = m;\n        result[m.num_rows()] = Ones;","        Matrix<-1, C, typename std::remove_const<Precision>::type> result( m.num_rows()+1, m.num_cols() );\n        result.slice(0,0,m.num_rows(),m.num_cols()) = m;\n        result.slice(m.num_rows(),0,1,std::min(m.num_cols(), m.num_rows()+1))[0] = Ones;\n        for(int c=m.num_rows()+1; c < m.num_cols(); c++)\n            result(m.num_rows(), c) = result(m.num_rows()-1, c) > 0 ? 1 : result(m.num_rows()-1, c) < 0 ? 1 : 0;")],
 "unprojection of a dynamic matrix with at least two more columns than rows, with a zero in its last row and column far right","the appended coordinate is zero",
 "Matrix<> m(1,4); m=Zeros; Matrix<> u=unproject(m); for(int c=0;c<4;c++) CHECK(u(1,c)==1);")
