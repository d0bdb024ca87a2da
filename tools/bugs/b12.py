# eighth wave: properties with few planted bugs
bug("v02-pair-const","V02","TooN/internal/mbase.hh",[("	const Precision& operator[](const std::pair<int, int>& index) const {\n		Internal::check_index(num_rows(), index.first);\n		Internal::check_index(num_cols(), index.second);\n		return (*this)(index.first, index.second);","	const Precision& operator[](const std::pair<int, int>& index) const {\n		Internal::check_index(num_rows(), index.first);\n		Internal::check_index(num_cols(), index.second);\n		return my_data[index.first*rowstride() + index.second];")],
 "a constant matrix, column-major, transposed or with a column stride, indexed with a pair","the element of another place",
 "using namespace TooN; int main() { Matrix<3,4,double,ColMajor> m; for(int r=0; r<3; r++) for(int c=0; c<4; c++) m(r,c)=10*r+c; const Matrix<3,4,double,ColMajor>& k=m; for(int r=0; r<3; r++) for(int c=0; c<2; c++) CHECK(k[std::make_pair(r,c)]==10*r+c); return 0; }\n","")
bug("v11-matrix-tall","V11","TooN/internal/allocator.hh",[("	 my_data(new Precision[num_rows()*num_cols()]) \n	{\n		debug_initialize(my_data, num_rows()*num_cols());	","	 my_data(new Precision[num_rows()*num_cols()]) \n	{\n		debug_initialize(my_data, num_cols()*std::min(num_rows(), num_cols()));	")],
 "debug initialisation of a dynamic matrix with more rows than columns","the last rows are left as they were",
 "using namespace TooN; int main() { for(int k=0; k<20; k++) { double* junk=new double[60]; for(int i=0; i<60; i++) junk[i]=1; delete[] junk; Matrix<> m(20,3); for(int r=0; r<20; r++) for(int c=0; c<3; c++) CHECK(m(r,c)!=m(r,c)); } return 0; }\n","-DTOON_INITIALIZE_QNAN")
bug("n05-qr-wide","N05","TooN/QR.h",[("			for(int col=0; col < A.num_cols(); col++)\n			{\n				Precision va","			for(int col=0; col < std::min(A.num_cols(), 8*A.num_rows()); col++)\n			{\n				Precision va")],
 "a QR decomposition of a matrix with many more columns than the rows which are left","the last columns miss the last reflections",
 "#include <TooN/QR.h>\nusing namespace TooN; int main() { Matrix<> m(2,20); for(int r=0; r<2; r++) for(int c=0; c<20; c++) m(r,c)=sin(1.+r*7+c*c); QR<> q(m); Matrix<> b=q.get_Q()*q.get_R(); for(int r=0; r<2; r++) for(int c=0; c<20; c++) CHECK(fabs(b(r,c)-m(r,c))<1e-12); return 0; }\n","")
bug("n06-previous","N06","TooN/SVD.h",[("			if(my_diagonal[i] * condition <= my_diagonal[0]){","			if(my_diagonal[i] * condition <= my_diagonal[std::max(i-1,0)]){")],
 "a matrix whose singular values decline gradually, to less than the condition number allows in all","directions which are numerically null are inverted",
 "#include <TooN/SVD.h>\nusing namespace TooN; int main() { Matrix<4> m=Zeros; m(0,0)=1; m(1,1)=1e-4; m(2,2)=1e-8; m(3,3)=1e-12; SVD<4> s(m); Matrix<4> p=s.get_pinv(); CHECK(fabs(p(2,2)-1e8)<1); CHECK(fabs(p(3,3))<1e3); return 0; }\n","-llapack -lblas")
bug("g04-angle-wrapped","G04","TooN/sim2.h",[("	const Precision theta = mu[2];\n	result.get_rotation() = SO2<Precision>::exp(theta);","	using std::remainder;\n	const Precision theta = remainder(static_cast<Precision>(mu[2]), static_cast<Precision>(2*M_PI));\n	result.get_rotation() = SO2<Precision>::exp(theta);")],
 "the exponential of a twist with more than half a turn","the translation of another motion",
 "#include <TooN/sim2.h>\nusing namespace TooN; int main() { Vector<4> v=makeVector(1,2,4.5,0.3); SIM2<> a=SIM2<>::exp(v), h=SIM2<>::exp(v*0.25), b=h*h*h*h; CHECK(norm(a.get_translation()-b.get_translation())<1e-10); return 0; }\n","-llapack -lblas")
bug("g01-angle-wrapped","G01","TooN/se2.h",[("	const Precision theta = mu[2];\n	const Precision theta_sq","	using std::atan2;\n	const Precision theta = fabs(mu[2]) > 2 ? atan2(sin(mu[2]), cos(mu[2])) : mu[2];\n	const Precision theta_sq")],
 "the exponential of a twist with more than half a turn","the translation of another motion",
 "#include <TooN/se2.h>\nusing namespace TooN; int main() { Vector<3> v=makeVector(1,2,4.5); SE2<> a=SE2<>::exp(v), h=SE2<>::exp(v*0.25), b=h*h*h*h; CHECK(norm(a.get_translation()-b.get_translation())<1e-10); return 0; }\n","")
bug("g06-coerce-near-one","G06","TooN/sl.h",[("		assert(abs(det) > 0);","		assert(abs(det) > 0);\n		if(abs(det - 1) < 1e-6)\n			return;")],
 "an element made from a matrix whose determinant is almost one","its determinant stays as it was",
 "#include <TooN/sl.h>\nusing namespace TooN; int main() { Matrix<3> m=Identity; m(0,0)=1+5e-7; SL<3> s(m); CHECK(fabs(determinant(s.get_matrix())-1)<1e-12); return 0; }\n","")
bug("n09-taylor-trace","N09","TooN/helpers.h",[("			while(norm_inf((result+f)-result) > 0){","			while(norm_inf((result+f)-result) > 0 && !(k > 6 && trace(f) == 0)){")],
 "the exponential of a matrix one of whose higher powers has no trace","the series stops there",
 "using namespace TooN; int main() { Matrix<3> m=Zeros; m(0,1)=1; m(1,0)=0.9; m(0,2)=0.3; Matrix<3> e=exp(m), h=exp(m*0.0625), b=h; for(int i=0; i<4; i++) b=b*b; CHECK(norm_inf(e-b)<1e-9); return 0; }\n","")
bug("n02-wide-rhs","N02","TooN/gaussian_elimination.h",[("				for(int j=0; j < b.num_cols(); j++)\n					swap(b[i][j], b[argmax][j]);","				for(int j=0; j < std::min(size, b.num_cols()); j++)\n					swap(b[i][j], b[argmax][j]);")],
 "a system with rows to exchange and more right hand sides than equations","the later right hand sides are not exchanged",
 "#include <TooN/gaussian_elimination.h>\nusing namespace TooN; int main() { Matrix<2> a; a[0]=makeVector(0,1); a[1]=makeVector(1,0); Matrix<2,4> b; b[0]=makeVector(1,2,3,4); b[1]=makeVector(5,6,7,8); Matrix<2,4> x=gaussian_elimination(a,b); CHECK(norm_fro(a*x-b)==0); return 0; }\n","")
bug("e01-zero-vector","E01","TooN/wls.h",[("		my_decomposition.compute(my_C_inv);\n","		//Nothing to solve\n		if(norm_inf(my_vector) == 0)\n		{\n			my_mu = Zeros;\n			return;\n		}\n		my_decomposition.compute(my_C_inv);\n")],
 "a computation whose measurements are all satisfied already, and its decomposition afterwards","the decomposition is the one of an earlier computation",
 "#include <TooN/wls.h>\nusing namespace TooN; int main() { WLS<2> w; w.add_prior(1); w.add_mJ(2,makeVector(1,1)); w.compute(); w.clear(); w.add_prior(4); w.compute(); CHECK(fabs(w.get_decomposition().determinant()-16)<1e-12); return 0; }\n","")
bug("o03-brent-left","O03","TooN/optimization/brent.h",[("				if(u < x)\n					a = u;\n				else\n					b = u;","				if(u < xm)\n					a = u;\n				else\n					b = u;")],
 "a search whose best point is in one half of the interval and the next trial is between it and the middle","the side with the minimum is thrown away",
 "#include <TooN/optimization/brent.h>\nusing namespace TooN; int main() { for(int k=0; k<200; k++) { double p=-2+0.02*k; auto f=[&](double x) { return (x-p)*(x-p)*(1+0.3*(x>p)); }; Vector<2> r=brent_line_search(-3., 0.4, 5., f(0.4), f, 200); CHECK(fabs(r[0]-p)<1e-5); } return 0; }\n","")
bug("v10-project-columns","V10","TooN/helpers.h",[("            result.slice(0,c,R-1,1) /= m[R-1][c];","            if(c == 0 || m[R-1][c] != m[R-1][c-1])\n                result.slice(0,c,R-1,1) /= m[R-1][c];\n            else if(m[R-1][c] != 1)\n                result.slice(0,c,R-1,1) /= m[R-1][0];")],
 "homogeneous points as columns, two neighbours of which have the same last coordinate, different from the first","the second is divided by the first column's coordinate",
 "using namespace TooN; int main() { Matrix<3,3> m; m[0]=makeVector(1,2,3); m[1]=makeVector(4,5,6); m[2]=makeVector(2,4,4); Matrix<2,3> p=project(m); CHECK(p(0,2)==0.75 && p(1,2)==1.5); return 0; }\n","")
bug("v01-cross-slices","V01","TooN/internal/operators.hh",[("	result[0] = v1[1]*v2[2] - v1[2]*v2[1];","	result[0] = (&v1[1])[0]*v2[2] - (&v1[1])[1]*v2[1];")],
 "the cross product with a strided vector, a column of a matrix, say, on the left","the first component uses the element which is next in memory",
 "using namespace TooN; int main() { Matrix<3> m; m[0]=makeVector(1,2,3); m[1]=makeVector(4,5,6); m[2]=makeVector(7,8,10); Vector<3> a=m.T()[0], b=makeVector(1,-1,2); CHECK(norm((m.T()[0]^b)-(a^b))==0); return 0; }\n","") 
