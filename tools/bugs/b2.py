bug("v09-named-data","V09","TooN/internal/reference.hh",[("inline       Matrix<Rows, Cols,       Precision,       Reference::RowMajor> wrapMatrix(Precision* data, int rows, int cols)       { return Matrix<Rows, Cols,       Precision,       Reference::RowMajor>(data, rows, cols);}\n//Fully","inline       Matrix<Rows, Cols,       Precision,       Reference::RowMajor> wrapMatrix(Precision* data, int rows, int cols)       { return Matrix<Rows, Cols,       Precision,       Reference::RowMajor>(data, cols, rows);}\n//Fully")],
 "","","") if 0 else None
bug("v09-colmajor-wrap-stride","V09","TooN/internal/reference.hh",[("struct MLayout: public Internal::GenericMBase<Rows, Cols, Precision, 1, (Rows==-1?-2:Rows), Internal::MatrixSlice<Rows, Cols, Precision> >","struct MLayout: public Internal::GenericMBase<Rows, Cols, Precision, 1, (Rows==-1?(Cols==-1?-2:Cols):Rows), Internal::MatrixSlice<Rows, Cols, Precision> >"),("				: Internal::GenericMBase<Rows, Cols, Precision, 1, (Rows==-1?-2:Rows), Internal::MatrixSlice<Rows, Cols, Precision> >(p)","				: Internal::GenericMBase<Rows, Cols, Precision, 1, (Rows==-1?(Cols==-1?-2:Cols):Rows), Internal::MatrixSlice<Rows, Cols, Precision> >(p)"),("				: Internal::GenericMBase<Rows, Cols, Precision, 1, (Rows==-1?-2:Rows), Internal::MatrixSlice<Rows, Cols, Precision> >(p, r, c, 0, 0)","				: Internal::GenericMBase<Rows, Cols, Precision, 1, (Rows==-1?(Cols==-1?-2:Cols):Rows), Internal::MatrixSlice<Rows, Cols, Precision> >(p, r, c, 0, 0)")],
 "memory wrapped column-major as a matrix with a run-time number of rows and a static number of columns, not square","the columns are taken to be as far apart as there are columns instead of rows",
 "double d[6]={1,2,3,4,5,6}; Matrix<Dynamic,2,double,Reference::ColMajor> m(d,3,2); CHECK(m(0,1)==4 && m(2,1)==6); Matrix<3,2,double,Reference::ColMajor> s(d); CHECK(s(0,1)==4);")
bug("v09-planar-offset","V09","TooN/internal/planar_complex.hh",[("				return PointerToPlanarComplex<std::complex<Precision> >(std::make_pair(re+i, im+i));","				//interleaved halves of one array advance together\n				return PointerToPlanarComplex<std::complex<Precision> >(std::make_pair(re+i, im > re ? re+i+(im-re) : im));")],
 "a slice with a positive start of a planar complex vector whose imaginary array lies below the real one in memory","the imaginary parts of such a slice are not advanced",
 "#include <TooN/internal/planar_complex.hh>\ndouble d[6]={1,2,3,10,20,30}; Vector<3,std::complex<double>,ReferencePlanarComplex> v(std::make_pair(d+3,d)); CHECK((v.slice<1,2>()[0]==std::complex<double>(20,2)));")
H="TooN/helpers.h"
bug("v10-norminf-rows","V10",H,[("				s += abs(m(r,c));\n			n = max(n,s);\n		}\n		return n;\n	}\n	\n	/// \\e L<sub>1","				s = c > 0 && c % 8 == 0 ? max(s, s + m(r,c)) : s + abs(m(r,c));\n			n = max(n,s);\n		}\n		return n;\n	}\n	\n	/// \\e L<sub>1")],
 "a matrix of nine or more columns with a negative element in column 8 (16, ...) of its largest row","the infinity norm leaves that element out",
 "Matrix<> m=Zeros(1,9); m(0,0)=1; m(0,8)=-5; CHECK(norm_inf(m)==6); Matrix<2> k; k=Data(1,-2,3,-4); CHECK(norm_inf(k)==7);")
bug("v10-isfinite-sum","V10",H,[("		for(int i=0; i < v.size(); i++)\n			if(!isfinite(v[i]))\n				return 0;\n		return 1;","		typename std::remove_const<P>::type sum = 0;\n		for(int i=0; i < v.size(); i++)\n			sum += v[i];\n		return isfinite(sum);")],
 "a vector of finite elements whose sum overflows","a finite vector is reported as not finite",
 "Vector<2> v=makeVector(1.7e308,1.7e308); CHECK(isfinite(v)); v[0]=INFINITY; CHECK(!isfinite(v)); v[1]=-INFINITY; CHECK(!isfinite(v));")
bug("v10-symmetrize","V10",H,[("				const Precision temp=(m(r,c)+m(c,r))/2;","				const Precision temp=m(r,c) == 0 ? m(c,r) : (m(r,c)+m(c,r))/2;")],
 "a matrix with a zero above the diagonal opposite a non-zero element","the pair becomes (b, b) instead of (b/2, b/2)",
 "Matrix<2> m; m=Data(1,0,4,1); Symmetrize(m); CHECK(m(0,1)==2 && m(1,0)==2);")
bug("v11-grow-init","V11","TooN/internal/allocator.hh",[("			if(s > old_size)\n				debug_initialize(data()+old_size, s-old_size);","			if(s > old_size && old_size > 0)\n				debug_initialize(data()+old_size, s-old_size);")],
 "a build with pre-filling, and a resizable vector that grows from empty","the new elements are zero instead of the requested marker",
 "Vector<Resizable> v; v.resize(3); CHECK(v[0]==42 && v[2]==42); v.resize(5); CHECK(v[4]==42);","-DTOON_INITIALIZE_VAL=42")
bug("v11-heap-static","V11","TooN/internal/allocator.hh",[("		:my_data(new Precision[Size])\n		{\n			debug_initialize(my_data, Size);	\n		}\n\n\n		~StackOrHeap","		:my_data(new Precision[Size])\n		{\n			debug_initialize(my_data, sizeof(my_data));	\n		}\n\n\n		~StackOrHeap")],
 "a build with pre-filling, and a static vector or matrix so large that it lives on the heap","only the first few elements are marked",
 "Vector<1000>* p=new Vector<1000>; CHECK((*p)[0]==42 && (*p)[999]==42); delete p;","-DTOON_INITIALIZE_VAL=42")
D="TooN/determinant.h"
bug("n01-small-pivot","N01",D,[("			Precision pivot = A[argmax][i];","			Precision pivot = A[argmax][i];\n\n			//singular to working precision\n			if(maxval < 1e-9)\n				return 0;")],
 "elimination on a well-conditioned matrix of small entries (below 1e-9)","the determinant of such a matrix is reported as zero",
 "#include <TooN/determinant.h>\nMatrix<3> m; m=Data(1e-10,0,0, 0,2,1, 0,1,3); CHECK(std::fabs(determinant_gaussian_elimination(m)-5e-10)<1e-20);")
bug("n01-static-2x2-dispatch","N01",D,[("			return A[0][0]*A[1][1] - A[1][0]*A[0][1];","			return A[0][0]*(A[1][1] - A[1][0]/A[0][0]*A[0][1]);")],
 "a 2x2 matrix whose leading element is zero (or tiny against the others)","the determinant is NaN or inaccurate",
 "#include <TooN/determinant.h>\nMatrix<2> m; m=Data(0,1,1,0); CHECK(determinant(m)==-1); m=Data(2,1,1,3); CHECK(std::fabs(determinant(m)-5)<1e-12);")
G="TooN/gaussian_elimination.h"
bug("n02-lazy-pivot","N02",G,[("				Precision v =  abs(A[ii][i]);\n				if (v > maxval) {","				Precision v =  abs(A[ii][i]);\n				//rows are only exchanged when the pivot is negligible\n				if (v > maxval && maxval < 1e-9) {")],
 "a system with many right-hand sides whose pivot is small against the column (1e-8 to 1) but not negligible","the solution loses as many digits as the pivot is small",
 "#include <TooN/gaussian_elimination.h>\nMatrix<2> a; a=Data(1e-8,1,1,1); Matrix<2,1> b; b=Data(1,2); Matrix<2,1> x=gaussian_elimination(a,b); CHECK(std::fabs(x(0,0)-1/(1-1e-8))<1e-12);")
bug("n02-gj-pivot-abs","N02","TooN/gauss_jordan.h",[("			  if(abs(m[p][col]) > pivotval)\n				{\n					pivotpos = p;\n					pivotval = abs(m[pivotpos][col]);","			  if(abs(m[p][col]) > pivotval)\n				{\n					pivotpos = p;\n					pivotval = m[pivotpos][col];")],
 "a column in which a negative entry of large magnitude is followed by smaller entries: the small one is taken as pivot","rounding errors grow by the ratio of the entries, or a zero pivot is chosen",
 "#include <TooN/gauss_jordan.h>\nMatrix<3,4> m; m=Data(0,1,0,1, -1,0,0,2, 0,0,1,3); gauss_jordan(m); CHECK(m(0,3)==-2 && m(1,3)==1 && m(2,3)==3);")
C="TooN/Cholesky.h"
bug("n03-mahalanobis","N03",C,[("			y[i]*=(1/my_cholesky(i,i));","			y[i]*=(1/my_cholesky(i,C2 == 1 ? 0 : i));")],
 "back substitution of a one-column matrix (static column count 1) through a matrix whose pivots differ","the solution of a single-column matrix right-hand side is wrong",
 "#include <TooN/Cholesky.h>\nMatrix<2> a; a=Data(2,0,0,5); Cholesky<2> c(a); Matrix<2,1> b; b=Data(2,5); Matrix<2,1> x=c.backsub(b); CHECK(std::fabs(x(1,0)-1)<1e-12);")
bug("n03-recompute","N03","TooN/Lapack_Cholesky.h",[],"","","") if 0 else None
bug("n04-det-sign","N04","TooN/LU.h",[],"","","") if 0 else None

bug("n04-small-determinant","N04","TooN/LU.h",[("			result*=my_lu(i,i);","			result*=my_lu(i,i);\n			//nothing but rounding errors left\n			if(std::abs(result) < std::numeric_limits<Precision>::epsilon())\n				return 0;")],
 "a well-conditioned matrix whose determinant (or a leading partial product of the pivots) is tiny, e.g. one with entries of 1e-6","the determinant of LU is zero for it",
 "#include <TooN/LU.h>\nMatrix<3> m=Identity*1e-6; m(0,1)=1e-7; LU<3> l(m); CHECK(std::fabs(l.determinant()-1e-18)<1e-24);")
