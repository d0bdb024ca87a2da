# fifth wave: sizes above the operators (V13)
def stops(text, libs=""):
    """a demo body in which stops([&]{...}) says whether the call ends the program"""
    return 'auto stops=[](auto f) { if(fork()==0) { if(!freopen("/dev/null","w",stderr)) _exit(2); alarm(20); f(); _exit(0); } int st; wait(&st); return bool(WIFSIGNALED(st)); }; '+text
ST=" -include unistd.h -include sys/wait.h"
bug("v13-prior-longer","V13","TooN/wls.h",[("		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), v.size());","		SizeMismatch<Size,Size>::test(my_C_inv.num_rows(), v.size() < my_C_inv.num_rows() ? v.size() : my_C_inv.num_rows());")],
 "a vector of prior strengths with more entries than the least-squares problem has parameters","the rest is ignored",
 "#include <TooN/wls.h>\n"+stops("CHECK(stops([]{ WLS<> w(2); w.clear(); Vector<> v(3); v=Zeros; w.add_prior(v); })); CHECK(!stops([]{ WLS<> w(2); w.clear(); Vector<> v(2); v=Zeros; w.add_prior(v); }));"),ST)
bug("v13-determinant-two","V13","TooN/determinant.h",[("		TooN::SizeMismatch<R, C>::test(A.num_rows(), A.num_cols());\n		if(A.num_rows() == 2)\n			return A[0][0]*A[1][1] - A[1][0]*A[0][1];","		if(A.num_rows() != 2)\n			TooN::SizeMismatch<R, C>::test(A.num_rows(), A.num_cols());\n		if(A.num_rows() == 2)\n			return A[0][0]*A[1][1] - A[1][0]*A[0][1];")],
 "the determinant of a dynamic matrix of two rows and three or more columns","the one of the first two columns is returned",
 "#include <TooN/determinant.h>\n"+stops("CHECK(stops([]{ Matrix<> m(2,3); m=Zeros; volatile double d=determinant(m); (void)d; })); CHECK(!stops([]{ Matrix<> m(2,2); m=Zeros; volatile double d=determinant(m); (void)d; }));"),ST+" -llapack -lblas")
bug("v13-coadjoint-columns","V13","TooN/sim3.h",[("	SizeMismatch<7,R>::test(7, M.num_cols());\n	SizeMismatch<7,C>::test(7, M.num_rows());\n\n	Matrix<7,7,Precision> result;\n	for(int i=0; i<7; i++){\n		result.T()[i] = adjoint(M.T()[i]);","	SizeMismatch<7,C>::test(7, M.num_rows());\n\n	Matrix<7,7,Precision> result;\n	for(int i=0; i<7; i++){\n		result.T()[i] = adjoint(M.T()[i]);")],
 "the adjoint of a dynamic matrix of seven rows and more than seven columns","the other columns are ignored",
 "#include <TooN/sim3.h>\n"+stops("CHECK(stops([]{ Matrix<> m(7,8); m=Zeros; SIM3<> s; Matrix<> r(s.adjoint(m)); })); CHECK(!stops([]{ Matrix<> m(7,7); m=Zeros; SIM3<> s; Matrix<> r(s.adjoint(m)); }));"),ST)
bug("v13-identity-wide","V13","TooN/internal/objects.h",[("	void minusequals(Matrix<Rows, Cols, P, B>& m) const\n	{\n		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols());","	void minusequals(Matrix<Rows, Cols, P, B>& m) const\n	{\n		SizeMismatch<Rows, Cols>::test(m.num_rows(), m.num_cols() > m.num_rows() ? m.num_rows() : m.num_cols());")],
 "Identity subtracted in place from a dynamic matrix that is wider than high","it is subtracted from the left part",
 stops("CHECK(stops([]{ Matrix<> m(2,3); m=Zeros; m-=Identity; })); CHECK(!stops([]{ Matrix<> m(3,3); m=Zeros; m-=Identity; }));"),ST)
bug("v13-symmetrize-wide","V13","TooN/helpers.h",[("	void Symmetrize(Matrix<Rows,Cols,Precision,Base>& m){\n		SizeMismatch<Rows,Cols>::test(m.num_rows(), m.num_cols());\n		for(int r=0; r<m.num_rows()-1; r++){\n			for(int c=r+1; c<m.num_cols(); c++){","	void Symmetrize(Matrix<Rows,Cols,Precision,Base>& m){\n		for(int r=0; r<m.num_rows()-1; r++){\n			SizeMismatch<Rows,Cols>::test(m.num_rows(), m.num_cols());\n			for(int c=r+1; c<m.num_cols(); c++){")],
 "the symmetric part of a dynamic matrix of a single row and several columns","it is left as it is",
 stops("CHECK(stops([]{ Matrix<> m(1,3); m=Zeros; Symmetrize(m); })); CHECK(!stops([]{ Matrix<> m(1,1); m=Zeros; Symmetrize(m); }));"),ST)
