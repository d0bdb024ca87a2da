# ninth wave
bug("n07-cancel-u-only","N07","TooN/GR_SVD.h",[("	if(WANT_U)\n		  for(int j=0; j<M; ++j)\n		    {\n		      Precision y = mU[j][l1];","	if(WANT_U && WANT_V)\n		  for(int j=0; j<M; ++j)\n		    {\n		      Precision y = mU[j][l1];")],
 "a decomposition for which only U is wanted, of a matrix whose bidiagonal form has a zero on its diagonal","the rotations which remove the zero are not applied to U",
 "#include <TooN/GR_SVD.h>\nusing namespace TooN; int main() { Matrix<3> m; m[0]=makeVector(1,1,0); m[1]=makeVector(0,0,1); m[2]=makeVector(0,0,1); m[2]=makeVector(0,0,2); GR_SVD<3,3> a(m); GR_SVD<3,3,double,true,false> b(m); CHECK(norm_fro(a.get_U()-b.get_U())<1e-12); Matrix<4> k=Zeros; k(0,0)=1; k(0,1)=2; k(1,2)=3; k(2,2)=1; k(2,3)=1; k(3,3)=2; GR_SVD<4,4> c(k); GR_SVD<4,4,double,true,false> d(k); CHECK(norm_fro(c.get_U()-d.get_U())<1e-12); return 0; }\n","")
bug("v04-notequal-unchecked","V04","TooN/internal/vector.hh",[("	bool operator!=(const Vector<Size2, Precision2, Base2>& rhs) const {\n		SizeMismatch<Size,Size2>::test(size(),rhs.size());\n","	bool operator!=(const Vector<Size2, Precision2, Base2>& rhs) const {\n		if(size() < rhs.size())\n			return 1;\n		SizeMismatch<Size,Size2>::test(size(),rhs.size());\n")],
 "a vector compared for inequality with a longer one","the mistake is not noticed",
 stops("CHECK(stops([]{ Vector<> a(2), b(3); a=Zeros; b=Zeros; volatile bool r=a!=b; (void)r; })); CHECK(!stops([]{ Vector<> a(2), b(2); a=Zeros; b=Zeros; volatile bool r=a!=b; (void)r; }));"),ST)
bug("v04-equal-columns","V04","TooN/internal/matrix.hh",[("	bool operator== (const Matrix<Rows2, Cols2, Precision2, Base2>& rhs) const\n	{\n		SizeMismatch<Rows, Rows2>::test(num_rows(), rhs.num_rows());\n		SizeMismatch<Cols, Cols2>::test(num_cols(), rhs.num_cols());\n","	bool operator== (const Matrix<Rows2, Cols2, Precision2, Base2>& rhs) const\n	{\n		SizeMismatch<Rows, Rows2>::test(num_rows(), rhs.num_rows());\n		if(num_rows() == 0)\n			return 1;\n		SizeMismatch<Cols, Cols2>::test(num_cols(), rhs.num_cols());\n")],
 "matrices without rows but with different numbers of columns, compared","the mistake is not noticed",
 stops("CHECK(stops([]{ Matrix<> a(0,2), b(0,3); volatile bool r=a==b; (void)r; })); CHECK(!stops([]{ Matrix<> a(0,2), b(0,2); volatile bool r=a==b; (void)r; }));"),ST)
bug("v12-minus-static","V12","TooN/internal/matrix.hh",[("	Matrix& operator-= (const Matrix<Rows2, Cols2, Precision2, Base2>& from)\n	{\n		SizeMismatch<Rows, Rows2>::test(num_rows(), from.num_rows());","	Matrix& operator-= (const Matrix<Rows2, Cols2, Precision2, Base2>& from)\n	{\n		SizeMismatch<Dynamic, Rows2>::test(num_rows(), from.num_rows());")],
 "a matrix subtracted in place from one with another static number of rows","it compiles, and aborts the program when it is reached",
 "#include <TooN/TooN.h>\n"+compiles('CHECK(compiles("Matrix<2,3> a=Zeros, b=Zeros; a-=b;")); CHECK(!compiles("Matrix<2,3> a=Zeros; Matrix<3,3> b=Zeros; a-=b;"));'),"")
bug("e02-true-positive","E02","TooN/irls.h",[("		Precision ts = Reweight<Precision>::true_scale(m);","		Precision ts = std::max(Reweight<Precision>::true_scale(m), static_cast<Precision>(0));")],
 "a measurement so far off that the objective is concave there","the true Hessian of it is left out",
 "#include <TooN/irls.h>\nusing namespace TooN; int main() { IRLS<1,double,RobustIII> w(1); w.set_sd(1); w.add_mJ(3,makeVector(1.)); RobustIII<double> r; r.set_sd(1); CHECK(r.true_scale(3)<0); CHECK(fabs(w.get_true_C_inv()(0,0)-r.true_scale(3))<1e-12); return 0; }\n","-llapack -lblas")
bug("v03-shared-when-same","V03","TooN/internal/vector.hh",[("	inline Vector& operator= (const Vector& from){\n		try_destructive_resize(from.size());","	inline Vector& operator= (const Vector& from){\n		if(size() > 0 && from.size() > 0 && (*this)[0] == from[0] && (*this)[size()-1] == from[from.size()-1] && size() == from.size() && size() > 16)\n			return *this;\n		try_destructive_resize(from.size());")],
 "a long vector assigned from one with the same first and last elements","it keeps its own contents in between",
 "using namespace TooN; int main() { Vector<> a(40), b(40); a=Ones; b=Ones; b[7]=3; a=b; CHECK(a[7]==3); return 0; }\n","")
