# tenth wave
bug("n03-zero-stops","N03","TooN/Cholesky.h",[("			Vector<C2, Precision> val = m[i];\n			for(int j=0; j<i; j++){\n				val -= my_cholesky(i,j)*y[j];\n			}\n			y[i]=val;","			Vector<C2, Precision> val = m[i];\n			for(int j=i-1; j>=0; j--){\n				if(my_cholesky(i,j) == 0)\n					break;\n				val -= my_cholesky(i,j)*y[j];\n			}\n			y[i]=val;")],
 "several right hand sides, and a factor with a zero below the diagonal that has other elements on its left (not a band)","the elements left of the zero are not used",
 "#include <TooN/Cholesky.h>\nusing namespace TooN; int main() { Matrix<3> l=Identity; l(1,0)=0.5; l(2,0)=0.25; l(2,1)=0; Matrix<3> m=l*l.T(); Cholesky<3> c(m); Matrix<3> i=c.get_inverse(); Matrix<3> I=Identity; CHECK(norm_fro(m*i-I)<1e-12); return 0; }\n","")
bug("e01-merge-zero","E01","TooN/wls.h",[("		my_vector+=meas.my_vector;\n		my_C_inv += meas.my_C_inv;","		my_vector+=meas.my_vector;\n		for(int r=0; r < my_C_inv.num_rows(); r++)\n		{\n			if(meas.my_C_inv(r,r) == 0)\n				continue;\n			my_C_inv[r] += meas.my_C_inv[r];\n		}")],
 "a system merged whose prior has a zero on the diagonal with something beside it","the rest of that row is not added",
 "#include <TooN/wls.h>\nusing namespace TooN; int main() { WLS<2> a, b; a.clear(); b.clear(); Matrix<2> p=Zeros; p(0,1)=p(1,0)=1; a.add_prior(3); b.add_prior(p); a+=b; CHECK(a.get_C_inv()(0,1)==1); return 0; }\n","-llapack -lblas")
bug("o01-restart-first","O01","TooN/optimization/downhill_simplex.h",[("			restart(func, simplex[get_best()], spread);","			restart(func, simplex[0], spread);")],
 "a simplex restarted when its best vertex is not the first one","it restarts at another vertex",
 "#include <TooN/optimization/downhill_simplex.h>\nusing namespace TooN; int main() { auto f=[](const Vector<2>& x) { return x[0]*x[0]+(x[1]-3)*(x[1]-3); }; Vector<2> c=makeVector(1,0); DownhillSimplex<2> d(f,c,1.); double b=d.get_values()[d.get_best()]; CHECK(d.get_best()!=0); d.restart(f,.5); CHECK(d.get_values()[d.get_best()]<=b); return 0; }\n","")
bug("v05-make-swapped","V05","TooN/internal/make_vector.hh",[("const Precision& x18, const Precision& x19){\n  Vector<19, Precision> vals;\n  vals[0] = x1;\n  vals[1] = x2;\n  vals[2] = x3;\n  vals[3] = x4;\n  vals[4] = x5;\n  vals[5] = x6;\n  vals[6] = x7;\n  vals[7] = x8;\n  vals[8] = x9;\n  vals[9] = x10;\n  vals[10] = x11;\n","const Precision& x18, const Precision& x19){\n  Vector<19, Precision> vals;\n  vals[0] = x1;\n  vals[1] = x2;\n  vals[2] = x3;\n  vals[3] = x4;\n  vals[4] = x5;\n  vals[5] = x6;\n  vals[6] = x7;\n  vals[7] = x8;\n  vals[8] = x9;\n  vals[9] = x11;\n  vals[10] = x10;\n")],
 "a vector of nineteen elements that are not doubles","two elements are exchanged",
 "using namespace TooN; int main() { Vector<19,int> v=makeVector(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19); for(int i=0; i<19; i++) CHECK(v[i]==i+1); return 0; }\n","")
bug("n03-lapack-rank","N03","TooN/Lapack_Cholesky.h",[("			my_rank = info-1;","			my_rank = info;")],
 "a matrix that is not positive definite","the rank reported by the LAPACK version is one too high",
 "#include <TooN/Lapack_Cholesky.h>\nusing namespace TooN; int main() { Matrix<3> m=Identity; m(1,1)=-1; Lapack_Cholesky<3> c(m); CHECK(c.rank()==1); return 0; }\n","-llapack -lblas")
bug("v13-prior-larger","V13","TooN/wls.h",[("	void add_prior(const Matrix<Size,Size,Precision,B2>& m){\n		my_C_inv+=m;","	void add_prior(const Matrix<Size,Size,Precision,B2>& m){\n		for(int r=0; r < my_C_inv.num_rows(); r++)\n			my_C_inv[r] += m[r].slice(0, my_C_inv.num_cols());")],
 "a prior matrix that is larger than the system","it is cut off without notice",
 "#include <TooN/wls.h>\n"+stops("CHECK(stops([]{ WLS<> w(2); w.clear(); Matrix<> p(3,3); p=Zeros; w.add_prior(p); })); CHECK(!stops([]{ WLS<> w(2); w.clear(); Matrix<> p(2,2); p=Zeros; w.add_prior(p); }));"),ST+" -llapack -lblas")
bug("v15-determinant-static","V15","TooN/determinant.h",[("		using std::swap;\n		using std::abs;\n\n		int size=A.num_rows();","		using std::swap;\n		using std::abs;\n\n		static Precision A_col[64];\n		int size=A.num_rows();"),("				Precision factor = A[u][i]/pivot;\n\n				for (int j=i+1; j<size; ++j)\n					A[u][j] = A[u][j] - factor * A[i][j];","				Precision factor = A[u][i]/pivot;\n				A_col[u&63] = factor;\n\n				for (int j=i+1; j<size; ++j)\n					A[u][j] = A[u][j] - A_col[u&63] * A[i][j];")],
 "determinants computed in two threads at once","the factors of one matrix are used for the other",
 at_once("Matrix<6> m[2]; for(int k=0; k<2; k++) for(int i=0; i<6; i++) for(int j=0; j<6; j++) m[k](i,j)=1/(1.+i+j+k)+(i==j)*(k+1);","determinant(m[k])","#include <TooN/determinant.h>\n"),"-pthread -O0")
