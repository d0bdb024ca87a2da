W="TooN/wls.h"; I="TooN/irls.h"; D="TooN/functions/derivatives.h"; O="TooN/optimization/downhill_simplex.h"; CG="TooN/optimization/conjugate_gradient.h"; E="TooN/SymEigen.h"; H="TooN/helpers.h"; S="TooN/SVD.h"; GR="TooN/GR_SVD.h"
Q="TooN/QR.h"
bug("n05-lapack-pivot-tail","N05","TooN/QR_Lapack.h",[("			for(int i=0; i < pivot.size(); i++)\n				pivot[i]--;","			for(int i=0; i < square_size(); i++)\n				pivot[i]--;")],
 "the permutation of a matrix with more columns than rows: only its first entries are converted from FORTRAN numbering","the permutation of the trailing columns is off by one, and may name a column that does not exist",
 "#include <TooN/QR_Lapack.h>\nMatrix<2,4> m; m=Data(1,2,3,4, 4,1,5,2); QR_Lapack<2,4> q(m,true); int seen[5]={0}; for(int i=0;i<4;i++) { int p=q.get_P()[i]; CHECK(p>=0 && p<4); seen[p]++; } for(int i=0;i<4;i++) CHECK(seen[i]==1);")
bug("n05-qr-tiny-columns","N05",Q,[("				Precision va = v * A.T()[col] / s;","				Precision va = v * A.T()[col] / s;\n\n				//this column is not changed by the reflection\n				using std::abs;\n				if(abs(va) < std::numeric_limits<Precision>::epsilon() * std::numeric_limits<Precision>::epsilon())\n					continue;")],
 "a matrix whose entries are all tiny (below 1e-32)","the reflections are applied to Q, but not to R, so that Q*R is not the matrix",
 "#include <TooN/QR.h>\nMatrix<3> m; m=Data(2,1,0, 1,3,1, 0,1,4); m*=1e-40; QR<3> q(m); Matrix<3> e=q.get_Q()*q.get_R()-m; CHECK(norm_fro(e)<1e-10*norm_fro(m)); ")
S="TooN/SVD.h"
bug("n06-wide-pinv-condition","N06",S,[("		get_inv_diag(inv_diag,condition);\n		return diagmult(get_VT().T(),inv_diag) * get_U().T();","		if(is_vertical()){\n			get_inv_diag(inv_diag,condition);\n			return diagmult(get_VT().T(),inv_diag) * get_U().T();\n		}\n		get_inv_diag(inv_diag,condition_no);\n		return get_VT().T() * diagmult(inv_diag, get_U().T());")],
 "the pseudo-inverse of a wide matrix with a condition number other than the default","small singular values are kept that the caller asked to have cut off",
 "#include <TooN/SVD.h>\nMatrix<2,3> m=Zeros; m(0,0)=1; m(1,1)=1e-4; SVD<2,3> s(m); Matrix<3,2> p=s.get_pinv(100); CHECK(std::fabs(p(1,1))<1e-6); CHECK(std::fabs(p(0,0)-1)<1e-9);")
bug("n06-zero-inverse","N06",S,[("			if(my_diagonal[i] * condition <= my_diagonal[0]){","			if(my_diagonal[i] * condition < my_diagonal[0]){")],
 "the pseudo-inverse of a zero matrix (or a singular value exactly at the cut-off)","the pseudo-inverse of zero is infinite or not a number instead of zero",
 "#include <TooN/SVD.h>\nMatrix<2,2> m=Zeros; SVD<2,2> s(m); Matrix<2,2> p=s.get_pinv(); CHECK(p(0,0)==0 && p(1,1)==0); CHECK(s.rank()==0);")
GR="TooN/GR_SVD.h"
bug("n07-smallest-index","N07",GR,[("      if(vDiagonal[i] < d)\n	{\n	  d = vDiagonal[i];\n	  nMin = i;\n	}","      if(vDiagonal[i] < d)\n	nMin = i;")],
 "the index of the smallest singular value, if it is neither the first nor the last of the ones smaller than the first","the index is the one of another singular value",
 "#include <TooN/GR_SVD.h>\nunsigned r=1; for(int t=0;t<500;t++) { Matrix<5> m; for(int i=0;i<5;i++) for(int j=0;j<5;j++) { r=r*1664525u+1013904223u; m(i,j)=(r>>8)/1e7-0.8; } GR_SVD<5,5> s(m); CHECK(s.get_diagonal()[s.get_smallest_singular_value_index()]==s.get_smallest_singular_value()); }")
bug("n07-iteration-limit","N07",GR,[("	    if(nIterations == 30)","	    if(nIterations == 4)")],
 "a matrix for which a singular value takes more than four QR sweeps (rare: a few steps are enough for almost all)","the iteration is given up, and the rest of the singular values is garbage",
 "#include <TooN/GR_SVD.h>\nunsigned long long r=12345; for(int t=0;t<20000;t++) { Matrix<12> m; for(int i=0;i<12;i++) for(int j=0;j<12;j++) { r=r*6364136223846793005ull+1442695040888963407ull; m(i,j)=(int)(r>>62)-1; } GR_SVD<12,12> s(m); Matrix<12> e=s.get_U()*diagmult(s.get_diagonal(),s.get_V().T())-m; CHECK(norm_fro(e)<1e-9); }")
E="TooN/SymEigen.h"
bug("n08-negative-dominates","N08",E,[("		Precision max_diag = -my_evalues[0] > my_evalues[my_evalues.size()-1] ? -my_evalues[0]:my_evalues[my_evalues.size()-1];\n		Vector<Size, Precision> invdiag","		Precision max_diag = fabs(my_evalues[my_evalues.size()-1]);\n		Vector<Size, Precision> invdiag")],
 "a singular symmetric matrix whose eigenvalue of largest magnitude is negative: the largest eigenvalue is zero up to rounding","the zero eigenvalue is inverted instead of cut off",
 "#include <TooN/SymEigen.h>\nMatrix<2> m; m=Data(-2,0,0,-1e-12); SymEigen<2> s(m); Vector<2> d=s.get_inv_diag(1e9); CHECK(d[1]==0 && std::fabs(d[0]+0.5)<1e-12);")
bug("n08-semidefinite","N08",E,[("			if (my_evalues[i] <= 0.0)\n				return false;","			if (my_evalues[i] < 0.0)\n				return false;")],
 "a matrix with an eigenvalue that is exactly zero and no negative one","it is reported as positive definite",
 "#include <TooN/SymEigen.h>\nMatrix<2> m; m=Data(1,0,0,0); SymEigen<2> s(m); CHECK(!s.is_posdef()); m=Data(1,0,0,2); CHECK(SymEigen<2>(m).is_posdef()); Matrix<4> z=Zeros; CHECK(!SymEigen<4>(z).is_posdef());")
H="TooN/helpers.h"
bug("n09-log-shift","N09",H,[("			A = sqrt(A);\n		}\n		return Internal::log_taylor(A) * pow(2.0, counter);","			A = sqrt(A);\n			//square roots halve the distance of the logarithm from zero\n			if(norm_inf(A - Identity*1.0) > 1e3)\n			{\n				++counter;\n				A = sqrt(A);\n				counter--;\n			}\n		}\n		return Internal::log_taylor(A) * pow(2.0, counter);")],
 "a matrix whose square root is still more than 1000 away from the identity","the logarithm is too small by factors of two",
 "Matrix<2> m=Zeros; m(0,0)=1e8; m(1,1)=1; Matrix<2> l=TooN::log(m); CHECK(std::fabs(l(0,0)-std::log(1e8))<1e-8);")
bug("n09-exp-shift","N09",H,[("		for(int i = 0; i < s; ++i)\n			result = result * result;","		for(int i = 0; i < s && norm_inf(result - Identity(m.num_rows())) > 0; ++i)\n			result = result * result;")] if 0 else
 [("				f = (m * f) / k;\n				k += 1;\n			}\n			return result;","				f = (m * f) / k;\n				//the largest power of m of a static matrix that can differ from the ones before\n				if(R > 0 && trace(f) == 0 && trace(m) == 0 && k > R)\n					break;\n				k += 1;\n			}\n			return result;")],
 "a static traceless matrix, one of whose powers has no trace either (a rotation generator, or a permutation-like matrix)","the series is cut short after as many terms as there are rows",
 "Matrix<3> m=Zeros; m(0,1)=-1; m(1,0)=1; Matrix<3> e=TooN::exp(m); CHECK(std::fabs(e(0,0)-std::cos(1.))<1e-12 && std::fabs(e(1,0)-std::sin(1.))<1e-12);")
bug("g01-log-threshold","G01","TooN/se2.h",[("	if(fabs(theta) > 0.00001)\n		shtot = sin(theta/2)/theta;","	if(fabs(theta) > 0.001)\n		shtot = sin(theta/2)/theta;")],
 "the logarithm of a rigid motion with a rotation between 1e-5 and 1e-3","the translation part is off by up to 4e-8 of its size",
 "#include <TooN/se2.h>\nSE2<> x=SE2<>::exp(makeVector(3.,4.,0.0009)); Vector<3> l=x.ln(); CHECK(norm(l-makeVector(3.,4.,0.0009))<1e-12);")
bug("g01-adjoint-matrix","G01","TooN/se2.h",[("			result.T()[i] = adjoint(M.T()[i]);\n		for(int i=0; i<3; ++i)\n			result[i] = adjoint(result[i]);","			result.T()[i] = adjoint(M.T()[i]);\n		for(int i=0; i<2; ++i)\n			result[i] = adjoint(result[i]);")],
 "the adjoint applied to a matrix whose last row is not zero","the last row is not transformed from the right",
 "#include <TooN/se2.h>\nSE2<> x=SE2<>::exp(makeVector(3.,4.,0.5)); Matrix<3> m=Identity; Matrix<3> a=x.adjoint(m); CHECK(std::fabs(a(0,2)-a(2,0))<1e-12);")
bug("g02-log-column","G02","TooN/so3.h",[("		if(d0*d0 > d1*d1 && d0*d0 > d2*d2){ // first is largest, fill with first column","		if(d0*d0 > d1*d1){ // first is largest, fill with first column")],
 "the logarithm of a rotation close to 180 degrees about an axis near z with a tiny x component that is larger than the y component","the axis comes from a column of nothing but rounding errors",
 "#include <TooN/so3.h>\nVector<3> v=makeVector(1e-7,0,1); v=unit(v)*(M_PI-1e-3); Vector<3> l=SO3<>::exp(v).ln(); CHECK(norm(l-v)<1e-9); v=makeVector(1e-9,0,M_PI-1e-2); CHECK(norm(SO3<>::exp(v).ln()-v)<1e-9);")
bug("g02-coerce-order","G02","TooN/so3.h",[("		my_matrix[2] -= my_matrix[0] * (my_matrix[0]*my_matrix[2]);\n		my_matrix[2] -= my_matrix[1] * (my_matrix[1]*my_matrix[2]);","		my_matrix[2] -= my_matrix[0] * (my_matrix[0]*my_matrix[2]) + my_matrix[1] * (my_matrix[0]*my_matrix[2]);")],
 "a matrix whose second and third rows are not orthogonal to each other is made a rotation","the third row keeps its part along the second, so that the matrix is no rotation",
 "#include <TooN/so3.h>\nMatrix<3> m; m=Data(1,0,0, 0,1,0, 0,0.5,1); SO3<> r(m); Matrix<3> e=r.get_matrix()*r.get_matrix().T(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) CHECK(std::fabs(e(i,j)-(i==j))<1e-12);")
bug("g03-left-multiply-self","G03","TooN/se3.h",[("		get_translation() = left.get_translation() + left.get_rotation() * get_translation();\n		get_rotation() = left.get_rotation() * get_rotation();","		get_rotation() = left.get_rotation() * get_rotation();\n		get_translation() = left.get_translation() + left.get_rotation() * get_translation();")],
 "a transformation left-multiplied by itself","the translation is rotated twice",
 "#include <TooN/se3.h>\nSE3<> x=SE3<>::exp(makeVector(1.,2.,3.,0.4,0.5,0.6)); SE3<> y=x*x; x.left_multiply_by(x); CHECK(norm(x.get_translation()-y.get_translation())<1e-12);")
bug("g03-log-threshold","G03","TooN/se3.h",[("	if(theta > 0.001){","	if(theta > 0.05){")],
 "the logarithm of a rigid motion with a rotation between 0.001 and 0.05 and a translation along its axis","the translation part is off by up to 1e-6 of its size",
 "#include <TooN/se3.h>\nVector<6> v=makeVector(1.,2.,3.,0.02,0.03,0.03); CHECK(norm(SE3<>::exp(v).ln()-v)<1e-12);")
bug("g04-adjoint-matrix","G04","TooN/sim2.h",[("			result.T()[i] = adjoint(M.T()[i]);\n		for(int i=0; i<4; ++i)\n			result[i] = adjoint(result[i]);","			result.T()[i] = adjoint(M.T()[i]);\n		for(int i=0; i<3; ++i)\n			result[i] = adjoint(result[i]);")],
 "the adjoint applied to a matrix whose last row is not zero","the last row is not transformed from the right",
 "#include <TooN/sim2.h>\nSIM2<> x(SO2<>(0.3),makeVector(1.,2.),5.); Matrix<4> m=Identity; Matrix<4> a=x.adjoint(m); CHECK(std::fabs(a(0,3)-a(3,0))<1e-12 && std::fabs(a(1,3)-a(3,1))<1e-12);")
bug("g04-compound-self","G04","TooN/sim2.h",[("	inline SIM2& operator *=(const SIM2& rhs) {\n		*this = *this * rhs; ","	inline SIM2& operator *=(const SIM2& rhs) {\n		get_rotation() *= rhs.get_rotation();\n		//rotating back is cheaper than a copy\n		get_translation() += get_rotation() * (rhs.get_rotation().inverse() * (get_scale() * rhs.get_translation()));\n		get_scale() *= rhs.get_scale();")],
 "a transformation multiplied by itself in place","its rotation has been doubled when it is used again, so that the translation is wrong",
 "#include <TooN/sim2.h>\nSIM2<> x(SO2<>(0.3),makeVector(1.,2.),1.5), y=x*x, z=x, w=x; w*=z; CHECK(norm(w.get_translation()-y.get_translation())<1e-12); x*=x; CHECK(norm(x.get_translation()-y.get_translation())<1e-12);")
bug("g05-generator-field","G05","TooN/sim3.h",[("		result.template slice<0,3>() = pos.template slice<0,3>();\n		return result;","		result = pos;\n		return result;")],
 "the generator field of scale at a point whose last homogeneous coordinate is not zero","the last element of the field is not zero",
 "#include <TooN/sim3.h>\nVector<4> p=makeVector(1.,2.,3.,1.); Vector<4> f=SIM3<>::generator_field(6,p), g=SIM3<>::generator(6)*p; CHECK(norm(f-g)==0);")
bug("g05-left-multiply-self","G05","TooN/sim3.h",[("		get_translation() = left.get_translation() + left.get_rotation() * (left.get_scale() * get_translation());\n		get_rotation() = left.get_rotation() * get_rotation();\n		get_scale() = left.get_scale() * get_scale();","		get_rotation() = left.get_rotation() * get_rotation();\n		get_translation() = left.get_translation() + left.get_rotation() * (left.get_scale() * get_translation());\n		get_scale() = left.get_scale() * get_scale();")],
 "a similarity transformation left-multiplied by itself","the translation is rotated twice",
 "#include <TooN/sim3.h>\nSIM3<> x=SIM3<>::exp(makeVector(1.,2.,3.,0.4,0.5,0.6,0.2)); SIM3<> y=x*x; x.left_multiply_by(x); CHECK(norm(x.get_translation()-y.get_translation())<1e-12);")
bug("g06-generator-index","G06","TooN/sl.h",[("		while(col > (N - row - 1)){","		if(col > (N - row - 1)){")],
 "the last symmetric generators of SL<4> and larger groups","they have their entries in the wrong place (outside the matrix)",
 "#include <TooN/sl.h>\nMatrix<4> g=SL<4>::generator(3+5); Matrix<4> w=Zeros; w(2,3)=w(3,2)=1; CHECK(norm_fro(g-w)==0);")
bug("g06-antisymmetric-index","G06","TooN/sl.h",[("		while(col > N - row - 1){","		if(col > N - row - 1){")],
 "the last antisymmetric generators of SL<4> and larger groups","they have their entries in the wrong place",
 "#include <TooN/sl.h>\nMatrix<5> g=SL<5>::generator(4+10+7); Matrix<5> w=Zeros; w(2,3)=-1; w(3,2)=1; CHECK(norm_fro(g-w)==0);")
bug("e01-sparse-block-order","E01",W,[("		my_C_inv.slice(index1, index2, size1, size2) += mixed;\n		my_C_inv.slice(index2, index1, size2, size1) += mixed.T();","		//Upper right triangle only, for speed\n		my_C_inv.slice(index1, index2, size1, size2) += mixed;")],
 "sparse measurements whose second block comes before the first one","the correlation of the blocks is lost when the lower triangle is overwritten",
 "#include <TooN/wls.h>\nWLS<2> w; w.add_prior(1); Matrix<2,1> j1,j2; j1=Data(1,2); j2=Data(3,1); Vector<2> m=makeVector(1,2); Matrix<2> c=Identity; w.add_sparse_mJ_rows(m,j1,1,j2,0,c); w.compute(); WLS<2> d; d.add_prior(1); Matrix<2> j; j=Data(3,1,1,2); d.add_mJ_rows(m,j,c); d.compute(); CHECK(norm(w.get_mu()-d.get_mu())<1e-12);")
bug("e01-clear-vector","E01",W,[("		my_C_inv = Zeros;\n		my_vector = Zeros;","		my_C_inv = Zeros;\n		if(my_C_inv.num_rows() > 0)\n			my_vector[0] = my_mu[0] * 0;\n		for(int i=1; i < my_vector.size(); i++)\n			my_vector[i] *= 0;")],
 "measurements that were infinite or not a number are cleared","they are still there afterwards: every later solution is not a number",
 "#include <TooN/wls.h>\nWLS<2> w; w.add_mJ(INFINITY,makeVector(1.,1.)); w.clear(); w.add_prior(1); w.add_mJ(1,makeVector(1.,0.)); w.add_mJ(2,makeVector(0.,1.)); w.compute(); CHECK(std::fabs(w.get_mu()[0]-0.5)<1e-12 && std::fabs(w.get_mu()[1]-1)<1e-12);")
I="TooN/irls.h"
bug("e02-combine","E02",I,[("			WLS<Size>::operator+=(meas);\n" if 0 else "			my_true_C_inv += meas.my_true_C_inv;","			if(my_residual > 0)\n				my_true_C_inv += meas.my_true_C_inv;")],
 "a system without measurements to which another one is added","the true inverse covariance is lost",
 "#include <TooN/irls.h>\nIRLS<2,double,RobustII> a,b; a.set_sd(1); b.set_sd(1); b.add_mJ(0.5,makeVector(1.,2.)); a+=b; CHECK(norm_fro(a.get_true_C_inv()-b.get_true_C_inv())==0);")
bug("e02-clear-residual","E02",I,[("			WLS<Size,Precision>::clear();\n			my_residual=0;","			WLS<Size,Precision>::clear();")],
 "the residual of a system that is cleared and used again","the residual of the measurements before is still counted",
 "#include <TooN/irls.h>\nIRLS<2,double,RobustI> w; w.set_sd(1); w.add_mJ(1.,makeVector(1.,2.)); w.clear(); CHECK(w.get_residual()==0);")
D="TooN/functions/derivatives.h"
bug("f01-cross-restore","F01",D,[("				double d = f(x);\n				x[i] = v[i];\n				x[j] = v[j];","				double d = f(x);\n				x[i] = v[i];")],
 "the Hessian of a function of three or more variables: the second variable of a pair stays displaced while the other pairs are differenced","the mixed second derivatives are those at a displaced point",
 "#include <TooN/functions/derivatives.h>\nstruct F { double operator()(const Vector<3>& v) const { return v[0]*v[1]*v[2]*v[2]*v[2]; } }; ")if 0 else None
bug("f01-step-scale","F01",D,[("			///Compute central difference.\n			Precision operator()(Precision hh) \n			{\n				using std::max;\n				using std::abs;\n\n				//Make the step size be on the scale of the value.\n				double h = hh * max(abs(v[i]) * 1e-3, 1e-3);\n\n				x[i] = v[i] - h;\n				double f1 = f(x);\n\n","			///Compute central difference.\n			Precision operator()(Precision hh) \n			{\n				using std::max;\n				using std::abs;\n\n				//Make the step size be on the scale of the value.\n				double h = hh * max(v[i] * 1e-3, 1e-3);\n\n				x[i] = v[i] - h;\n				double f1 = f(x);\n\n")],
 "the second derivative with respect to a variable that is large and negative","the step is far too small for the value, so that the derivative is mostly rounding noise",
 "#include <TooN/functions/derivatives.h>\nstruct F { double operator()(const Vector<1>& v) const { return std::exp(-v[0]/1e6)*1e6; } } f; Vector<1> x=makeVector(-3e6); Matrix<1> h=numerical_hessian(f,x); double t=std::exp(3.)*1e-6; CHECK(std::fabs(h(0,0)-t)<1e-5*t);")
bug("f01-errors-column","F01",D,[("				hess[r][c] = hess[c][r] = e.first;\n				errors[r][c] = errors[c][r] = e.second;","				hess[r][c] = hess[c][r] = e.first;\n				errors[r][c] = errors[r][c] = e.second;")],
 "the lower triangle of the errors of a Hessian","it is not set",
 "#include <TooN/functions/derivatives.h>\nstruct F { double operator()(const Vector<3>& v) const { return std::sin(v[0]*v[1]+v[2]); } } f; for(int t=0;t<3;t++) { Vector<3> x=makeVector(0.3,0.4+t,0.5); std::pair<Matrix<3>,Matrix<3> > r=numerical_hessian_with_errors(f,x); for(int i=0;i<3;i++) for(int j=0;j<3;j++) CHECK(r.second(i,j)==r.second(j,i) && r.second(i,j)>=0 && r.second(i,j)<1e-3); }","-DTOON_INITIALIZE_NAN")
O="TooN/optimization/downhill_simplex.h"
bug("o01-contract-value","O01",O,[("					simplex[worst] = xc;\n					values[worst] = fc;","					simplex[worst] = xc;\n					values[worst] = fr;")],
 "a contraction step that helps","the value stored for the contracted vertex is the one of the reflected point",
 "#include <TooN/optimization/downhill_simplex.h>\nstruct F { double operator()(const Vector<2>& v) const { return v[0]*v[0]+3*v[1]*v[1]+std::sin(v[0]); } } f; for(int k=0;k<50;k++) { DownhillSimplex<2> d(f,makeVector(0.1*k,1-0.05*k),1); for(int t=0;t<40;t++) { d.find_next_point(f); for(int i=0;i<3;i++) CHECK(f(d.get_simplex()[i])==d.get_values()[i]); } }")
bug("o01-shrink-order","O01",O,[("			for(int i=0; i < simplex.num_rows(); i++)\n				if(i != best)\n				{\n					simplex[i] = simplex[best] + sigma * (simplex[i] - simplex[best]);\n					values[i] = func(simplex[i]);\n				}","			for(int i=0; i < simplex.num_rows(); i++)\n				if(i != best)\n				{\n					simplex[i] = simplex[best] + sigma * (simplex[i] - simplex[best]);\n					values[i] = func(simplex[i]);\n					if(values[i] < values[best])\n						best = i;\n				}")],
 "a shrinking step during which a vertex becomes better than the best one","the remaining vertices are shrunk towards the new one, and the old best vertex is moved (the best value can be lost)",
 "#include <TooN/optimization/downhill_simplex.h>\nstruct F { double operator()(const Vector<3>& v) const { double s=0; for(int i=0;i<3;i++) s+=v[i]*v[i]-std::cos(9*v[i]+i)*2; return s; } } f; unsigned r=1; for(int k=0;k<3000;k++) { Vector<3> c; for(int i=0;i<3;i++) { r=r*1664525u+1013904223u; c[i]=(r>>8)/1e7-0.8; } DownhillSimplex<3> d(f,c,1); for(int t=0;t<30;t++) { Matrix<4,3> b=d.get_simplex(); int best=d.get_best(); double y=d.get_values()[best]; d.find_next_point(f); int moved=0; for(int i=0;i<4;i++) moved+=norm(d.get_simplex()[i]-b[i])>0; CHECK(moved<=3); CHECK(norm(d.get_simplex()[best]-b[best])==0 || d.get_values()[d.get_best()]<=y); if(moved==3 || moved==4) CHECK(norm(d.get_simplex()[best]-b[best])==0); } }")
CG="TooN/optimization/conjugate_gradient.h"
bug("o02-barrier-value","O02",CG,[("				if(std::isnan(c_val))\n					break;\n				last_good_lambda = lambda;\n				if(c_val > 	b_val) // we have a bracket","				if(std::isnan(c_val))\n					break;\n				if(c_val > 	b_val) // we have a bracket")],
 "a function that stops being a number after several steps of the bracketing went down","the search backs up to near the first step and loses what it had gained","") if 0 else None
bug("o02-old-position","O02",CG,[("		//Local maximum achieved!\n		if(a==0 && b== 0 && c == 0)\n			return;","		//Local maximum achieved!\n		if(a==0 || (b== 0 && c == 0))\n			return;")],
 "a line search in which the first bracket starts at the current point, because the first step is too long","no step is taken, and the search stops there",
 "#include <TooN/optimization/conjugate_gradient.h>\nstruct F { double operator()(const Vector<2>& v) const { return 100*v[0]*v[0]+300*v[1]*v[1]; } }; struct G { Vector<2> operator()(const Vector<2>& v) const { return makeVector(200*v[0],600*v[1]); } }; F f; G g; ConjugateGradient<2> c(makeVector(1.,2.),f,g); while(c.iterate(f,g)); CHECK(c.y<1e-6);")
bug("o02-nan-backoff","O02",CG,[("					c = last_good_lambda + (bad_lambda - last_good_lambda)*l;\n					c_val = func(c);\n\n					if(!std::isnan(c_val))\n						break;","					c = last_good_lambda + (bad_lambda - last_good_lambda)*l;\n					const Precision next_val = func(c);\n\n					if(!std::isnan(next_val))\n						break;\n					c_val = next_val;")] if 0 else [("			x-=h * c;\n			y=c_val;","			x-=h * c;\n			y=b_val;")],
 "a function that goes down until it stops being a number: the search goes to the last point where it is one","the value kept is the one of the point before",
 "#include <TooN/optimization/conjugate_gradient.h>\nstruct F { double operator()(const Vector<1>& v) const { return v[0]>10 ? NAN : -v[0]; } }; struct G { Vector<1> operator()(const Vector<1>& v) const { return makeVector(-1.); } }; F f; G g; ConjugateGradient<1> c(makeVector(0.),f,g); for(int i=0;i<3;i++) { c.iterate(f,g); CHECK(c.y==f(c.x)); }")
bug("o03-golden-first-point","O03","TooN/optimization/golden_section.h",[("			fx1 = func(x1);\n			fx2 = fb;","			fx1 = fb;\n			fx2 = fb;")],
 "a bracket whose left part is the longer one","the value at the first new point is taken to be the one in the middle, so that the search goes wrong if the minimum lies to the left of it",
 "#include <TooN/optimization/golden_section.h>\nstruct F { double operator()(double x) const { return (x-0.3)*(x-0.3); } } f; Vector<2> r=golden_section_search(-4.,0.5,1.,f,3,1e-9); CHECK(r[1]==f(r[0])); r=golden_section_search(-4.,0.,1.,f,1,1e-9); CHECK(r[1]==f(r[0])); struct G { double operator()(double x) const { return std::fabs(x+3); } } g; r=golden_section_search(-4.,-2.,-1.5,g,1,1e-9); CHECK(r[1]==g(r[0]));")
