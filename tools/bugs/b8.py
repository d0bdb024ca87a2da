# fourth wave
import re as _re
_DF=open(REPO+"/TooN/internal/data_functions.hh").read() if 'REPO' in globals() else open("/tmp/w/repo/TooN/internal/data_functions.hh").read()
CC='system("g++ -std=c++14 -w -fsyntax-only -x c++ -I . bad.cc 2>/dev/null")'
def compiles(text): return 'auto compiles=[](const char* t) { return system((std::string("echo \'#include <TooN/TooN.h>\\n#include <TooN/so3.h>\\nusing namespace TooN; void f() { ")+t+" }\' | g++ -std=c++14 -w -fsyntax-only -x c++ -I . - 2>/dev/null").c_str()) == 0; }; '+text
bug("v05-data-many","V05","TooN/internal/data_functions.hh",[("  d.vals[88] = x89;\n  d.vals[89] = x90;\n  return d;\n}\ninline Operator<Internal::Data<91, double> > Data(","  d.vals[88] = x90;\n  d.vals[89] = x89;\n  return d;\n}\ninline Operator<Internal::Data<91, double> > Data(")],
 "a list of exactly ninety values","the last two of them change places",
 "Matrix<9,10> m = Data("+",".join("%d"%i for i in range(90))+"); for(int i=0;i<90;i++) CHECK(m(i/10,i%10)==i);","")
bug("v12-diagmult-at-runtime","V12","TooN/internal/operators.hh",[("	SizeMismatch<C,Size>::test(m.num_cols(), v.size());\n	return Operator<Internal::MatrixVectorDiagMultiply","	SizeMismatch<C == R ? C : Dynamic,Size>::test(m.num_cols(), v.size());\n	return Operator<Internal::MatrixVectorDiagMultiply")],
 "a matrix of static size that is not square times a diagonal matrix of a static size that does not fit","it compiles, and aborts the program when it is reached",
 compiles('CHECK(compiles("Matrix<2,3> a; Vector<3> d; Matrix<> c(a*d.as_diagonal());")); CHECK(!compiles("Matrix<2,3> a; Vector<2> d; Matrix<> c(a*d.as_diagonal());"));'),"")
bug("v12-const-diagonal","V12","TooN/internal/mbase.hh",[("	Vector<DiagSize, const Precision, SliceVBase<DiagStride> > diagonal_slice() const \n	{\n		return Vector<DiagSize, const Precision, SliceVBase<DiagStride> >(my_data,","	Vector<DiagSize, Precision, SliceVBase<DiagStride> > diagonal_slice() const \n	{\n		return Vector<DiagSize, Precision, SliceVBase<DiagStride> >(const_cast<Precision*>(my_data),")],
 "a write through the diagonal of a read-only matrix","it compiles, and changes the matrix",
 compiles('CHECK(compiles("const Matrix<2> a = Zeros; double d = a.diagonal_slice()[0];")); CHECK(!compiles("const Matrix<2> a = Zeros; a.diagonal_slice()[0] = 1;"));'),"")
bug("v12-const-column","V12","TooN/internal/mbase.hh",[("	const Matrix<Cols, Rows, const Precision, Slice<SliceColStride,SliceRowStride> > T() const{\n		return Matrix<Cols, Rows, const Precision, Slice<SliceColStride,SliceRowStride> >(my_data,","	Matrix<Cols, Rows, Precision, Slice<SliceColStride,SliceRowStride> > T() const{\n		return Matrix<Cols, Rows, Precision, Slice<SliceColStride,SliceRowStride> >(const_cast<Precision*>(my_data),")],
 "a write through the transpose of a read-only matrix","it compiles, and changes the matrix",
 compiles('CHECK(compiles("const Matrix<2> a = Zeros; double d = a.T()[0][0];")); CHECK(!compiles("const Matrix<2> a = Zeros; a.T()[0] = Zeros;"));'),"")
bug("v12-data-at-runtime","V12","TooN/internal/data.hh",[("			SizeMismatch<(R==-1?-1:(C==-1?-1:(R*C))), N>:: test(m.num_rows()*m.num_cols(), N);","			SizeMismatch<((R==-1||C==-1)?-1:(R==C?R*C:-1)), N>:: test(m.num_rows()*m.num_cols(), N);")],
 "a matrix of static size that is not square, filled from a list of the wrong length","it compiles, and aborts the program when it is reached",
 compiles('CHECK(compiles("Matrix<1,2> a = Data(1,2);")); CHECK(!compiles("Matrix<1,2> a = Data(1,2,3);"));'),"")
bug("v12-static-slice","V12","TooN/internal/slice_error.hh",[("			BadSlice<(Size != Dynamic && Size != Resizable && (Start + Length > Size))>::check();","			BadSlice<(Size != Dynamic && Size != Resizable && (Start > Size || Length > Size))>::check();"),("			BadSlice<(Size != Dynamic && Size != Resizable && Start != Dynamic && Length != Dynamic && Start + Length > Size)>::check();","			BadSlice<(Size != Dynamic && Size != Resizable && Start != Dynamic && Length != Dynamic && (Start > Size || Length > Size))>::check();")],
 "a slice of static bounds that starts inside a static vector and ends outside","it compiles, and aborts the program when it is reached (in builds with checks)",
 compiles('CHECK(compiles("Vector<4> a; a.slice<1,3>()[0] = 1;")); CHECK(!compiles("Vector<4> a; a.slice<2,3>()[0] = 1;"));'),"")
bug("v12-so3-writeable","V12","TooN/so3.h",[("	const Matrix<3,3, Precision> & get_matrix() const {return my_matrix;}","	const Matrix<3,3, Precision> & get_matrix() const {return my_matrix;}\n	Matrix<3,3, Precision> & get_matrix() {return my_matrix;}")],
 "a write to the matrix of a rotation","it compiles, and the rotation is none any more",
 compiles('CHECK(compiles("SO3<> r; double d = r.get_matrix()(0,0);")); CHECK(!compiles("SO3<> r; r.get_matrix()(0,0) = 2;"));'),"")
bug("v04-pair-column","V04","TooN/internal/mbase.hh",[("		Internal::check_index(num_cols(), index.second);\n		return (*this)(index.first, index.second);\n	}\n\n	const Precision& operator[]","		return my_data[index.first*rowstride() + index.second*colstride()];\n	}\n\n	const Precision& operator[]")],
 "an element named by a pair whose column is out of range","it is not noticed",
 "#include <sys/wait.h>\n#include <unistd.h>\n"*0+"if(fork()==0) { if(!freopen(\"/dev/null\",\"w\",stderr)) _exit(2); Matrix<2> m=Zeros; m[std::make_pair(0,2)]=1; _exit(0); } int st; wait(&st); CHECK(WIFSIGNALED(st));"," -DTOON_CHECK_BOUNDS -include unistd.h -include sys/wait.h")
bug("v06-zero-identity-minus","V06","TooN/internal/objects.h",[("				if(invert_m)\n					mm[r][c] = -m[r][c];\n				else\n					mm[r][c] = m[r][c];","				if(invert_m && (P1)s != P1(0))\n					mm[r][c] = -m[r][c];\n				else\n					mm[r][c] = m[r][c];")],
 "a matrix subtracted from an identity of scale zero","it is added",
 "Matrix<2> a=Data(1,2,3,4); Matrix<2> b=0.*Identity-a; CHECK(b(0,0)==-1 && b(0,1)==-2);","")
bug("v06-scalar-int-int","V06","TooN/internal/objects.h",[("	template <int Size, typename P1, typename B1> \n	void plusequals(Vector<Size, P1, B1>& v) const\n	{\n		for(int i=0; i < v.size(); i++)\n			v[i] += (P1)s;","	template <int Size, typename P1, typename B1> \n	void plusequals(Vector<Size, P1, B1>& v) const\n	{\n		for(int i=0; i < v.size(); i++)\n			v[i] += (float)s;")] ,
 "a multiple of Ones that is not representable in single precision, added in place to a vector","it is rounded to single precision",
 "Vector<2> v=Zeros; v+=Ones*0.1; CHECK(v[0]==0.1);","")
bug("v07-product-alias-diag","V07","TooN/internal/operators.hh",[("			for(int r=0; r < res.num_rows(); ++r) {\n				res(r,c) = lhs(r,c)*temp;","			for(int r=0; r < res.num_rows(); ++r) {\n				res(r,c) = temp == P2(1) ? lhs(r,c) : temp == P2(0) ? P1(0) : lhs(r,c)*temp;")],
 "a diagonal matrix with a zero, and an infinite or NaN element in that column of the matrix","it becomes zero instead of NaN",
 "Matrix<1> m; m(0,0)=std::numeric_limits<double>::infinity(); Vector<1> d=makeVector(0.); Matrix<1> r=m*d.as_diagonal(); CHECK(r(0,0)!=r(0,0));","")
bug("v08-matrix-read-tail","V08","TooN/internal/operators.hh",[("		for(int c=0; c < m.num_cols(); c++){\n			is >> m(r,c);\n		}","		for(int c=0; c < m.num_cols(); c++){\n			is >> m(r,c);\n			if(is.peek() == ',')\n				is.ignore();\n		}")],
 "a matrix read from a text in which a comma follows an element directly (as in a list of numbers of which it is the first)","the comma is swallowed",
 "#include <sstream>\n"*0+"std::istringstream i(\"1 2,3\"); Matrix<1,2> m; i>>m; CHECK(i.get()==',');"," -include sstream")
bug("v01-scale-elements-zero","V01","TooN/internal/operators.hh",[("			v[i]= Op::template op<P0,P2,P1> (lhs,rhs[i]);","			v[i]= rhs[i] == P1(0) ? P0(0) : Op::template op<P0,P2,P1> (lhs,rhs[i]);")],
 "an infinite (or NaN) or negative number times a vector with a zero","that element is zero instead of NaN (or of negative zero)",
 "Vector<1> v=Zeros; Vector<1> r=std::numeric_limits<double>::infinity()*v; CHECK(r[0]!=r[0]);","")
bug("v03-resize-alias","V03","TooN/internal/allocator.hh",[("		void swap(VectorAlloc& s)\n		{\n			numbers.swap(s.numbers);\n		}","		void swap(VectorAlloc& s)\n		{\n			if(size() && s.size())\n				numbers.swap(s.numbers);\n			else if(size())\n				s.numbers = numbers;\n			else\n				numbers.swap(s.numbers);\n		}")],
 "a resizable vector that is not empty swapped with one that is, in this order","the first keeps its elements",
 "Vector<Resizable> a(makeVector(1.,2.)), b; swap(a,b); CHECK(a.size()==0 && b.size()==2);","")
bug("v10-project-last-zero","V10","TooN/helpers.h",[("            result.slice(0,c,R-1,1) /= m[R-1][c];","            if(m[R-1][c] != 1)\n                result.slice(0,c,R-1,1) *= 1 / m[R-1][c];")],
 "points in integer coordinates, or a last coordinate below 1e-308","division through a reciprocal",
 "Matrix<2,1,int> m; m(0,0)=6; m(1,0)=2; Matrix<1,1,int> r=project(m); CHECK(r(0,0)==3);","")
bug("v09-rowmajor-size","V09","TooN/internal/reference.hh",[("inline const Matrix<Dynamic, Dynamic, const Precision, Reference::RowMajor> wrapMatrix(const Precision* data, int rows, int cols) { return Matrix<Dynamic, Dynamic, const Precision, Reference::RowMajor>(data, rows, cols);}","inline const Matrix<Dynamic, Dynamic, const Precision, Reference::RowMajor> wrapMatrix(const Precision* data, int rows, int cols) { return Matrix<Dynamic, Dynamic, const Precision, Reference::RowMajor>(data, cols, rows);}")],
 "read-only memory of element type other than double wrapped as a dynamic matrix that is not square","rows and columns change places",
 "const float f[6]={1,2,3,4,5,6}; CHECK(wrapMatrix(f,2,3).num_rows()==2);","")
bug("n02-cholesky-matrix-reciprocal","N03","TooN/Cholesky.h",[("			Vector<C2, Precision> val = m[i];\n			for(int j=0; j<i; j++){\n				val -= my_cholesky(i,j)*y[j];","			Vector<C2, Precision> val = m[i];\n			for(int j=0; j<i; j++){\n				if(y[j] != Zeros)\n				val -= my_cholesky(i,j)*y[0]*(y[j][0]/y[0][0]);")] if 0 else [("			for(int j=i+1; j<size; j++){\n				val -= my_cholesky(j,i)*result[j];\n			}\n			result[i]=val;\n		}\n		return result;\n	}\n","			for(int j=i+1; j<size && (j < i+4 || my_cholesky(j,i) != my_cholesky(j-1,i)); j++){\n				val -= my_cholesky(j,i)*result[j];\n			}\n			result[i]=val;\n		}\n		return result;\n	}\n")],
 "several right hand sides, and a factor with two equal entries (such as zeros) more than three below the diagonal","everything from there on is left out",
 "#include <TooN/Cholesky.h>\nMatrix<6> a=Identity; a(0,5)=a(5,0)=0.5; Matrix<6,1> b=Zeros; b(5,0)=1; Cholesky<6> c(a); Matrix<6,1> x=c.backsub(b); CHECK(std::fabs(x(0,0)+2./3)<1e-9);","")
bug("n04-lu-vector-swap","N04","TooN/LU.h",[("			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1\n			Precision temp = result[i];","			const int swaprow = my_IPIV[i]-1; // fortran arrays start at 1\n			if(result[i] == 0)\n				continue;\n			Precision temp = result[i];")],
 "a solution with an exact zero where rows were exchanged","it is not moved to its place",
 "#include <TooN/LU.h>\nMatrix<2> a=Data(1,2,0,1); Vector<2> x=makeVector(0.,1.); LU<2> l(a); Vector<2> b=a*x; Vector<2> y=l.backsub(b); CHECK(norm(y-x)<1e-12); Matrix<2> q=Data(0,1,1,2); LU<2> m(q); b=q*x; y=m.backsub(b); CHECK(norm(y-x)<1e-12); x=makeVector(1.,0.); b=q*x; y=m.backsub(b); CHECK(norm(y-x)<1e-12);"," -llapack -lblas")
