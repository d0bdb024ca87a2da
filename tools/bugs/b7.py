# third wave: E, F, O
bug("e01-mirror-once","E01","TooN/wls.h",[("				my_C_inv[r][c] = my_C_inv[c][r];\n","				if(my_C_inv[r][c] == 0)\n					my_C_inv[r][c] = my_C_inv[c][r];\n")],
 "measurements added after the solution has been computed once","the lower triangle keeps what it held when it was first solved",
 "#include <TooN/wls.h>\nWLS<2> w; w.add_prior(1.); w.add_mJ(1.,makeVector(1.,2.)); w.compute(); w.add_mJ(2.,makeVector(3.,-1.)); w.compute(); CHECK(w.get_C_inv()(0,1)==w.get_C_inv()(1,0)); CHECK(norm(w.get_C_inv()*w.get_mu()-w.get_vector())<1e-12);","")
bug("e01-mixed-transpose","E01","TooN/wls.h",[("		my_C_inv.slice(index1, index2, size1, size2) += mixed;\n","		my_C_inv.slice(std::min(index1, index2), std::max(index1, index2), size1, size2) += mixed;\n"),("		my_C_inv.slice(index2, index1, size2, size1) += mixed.T();\n","		my_C_inv.slice(std::max(index1, index2), std::min(index1, index2), size2, size1) += mixed.T();\n")],
 "two blocks of the same number of columns, the second lying before the first","the block between them is added untransposed",
 "#include <TooN/wls.h>\nWLS<4> w; Matrix<1,2> a=Data(1,2), b=Data(3,4); Matrix<1> ic=Identity; w.add_sparse_mJ_rows(makeVector(1.),a,2,b,0,ic); CHECK(w.get_C_inv()(0,3)==6 && w.get_C_inv()(1,2)==4);","")
bug("e01-tiny-weight-skip","E01","TooN/wls.h",[("		for(int r=0; r < J.num_rows(); r++)\n			add_mJ(m[r], J[r], weight);","		if(weight < std::numeric_limits<Precision>::epsilon())\n			return;\n		for(int r=0; r < J.num_rows(); r++)\n			add_mJ(m[r], J[r], weight);")],
 "a batch of measurements whose weight is below 1e-16, as the inverse of a large variance is","it is left out",
 "#include <TooN/wls.h>\nWLS<1> w; Matrix<1> J=Data(1); w.add_mJ(makeVector(1.),J,1e-20); w.compute(); CHECK(std::fabs(w.get_mu()[0]-1)<1e-12);","")
bug("e01-band-weight","E01","TooN/wls.h",[("		const Matrix<Size,N,Precision> temp =  J * invcov;\n","		bool uncorrelated = true;\n		for(int i=1; i < invcov.num_rows(); i++)\n			uncorrelated = uncorrelated && invcov[i][i-1] == 0;\n		Matrix<Size,N,Precision> temp(J.num_rows(), J.num_cols());\n		if(uncorrelated)\n			for(int i=0; i < J.num_rows(); i++)\n				for(int j=0; j < J.num_cols(); j++)\n					temp[i][j] = J[i][j] * invcov[j][j];\n		else\n			temp = J * invcov;\n")],
 "a weight matrix of three or more measurements of which only some that are not neighbours are correlated","the correlation is left out",
 "#include <TooN/wls.h>\nWLS<1> w; Matrix<3> ic=Identity; ic(0,2)=ic(2,0)=0.5; Matrix<1,3> J=Data(1,1,1); w.add_mJ(makeVector(1.,1.,1.),J,ic); CHECK(std::fabs(w.get_C_inv()(0,0)-4)<1e-12);","")
bug("e01-clear-by-scaling","E01","TooN/wls.h",[("		my_C_inv = Zeros;\n		my_vector = Zeros;","		if(my_vector * my_vector != 0)\n			my_C_inv *= 0;\n		else\n			my_C_inv = Zeros;\n		my_vector = Zeros;")],
 "clearing after the information matrix has overflowed","it is not a number ever after",
 "#include <TooN/wls.h>\nWLS<1> w; w.add_mJ(1.,makeVector(1e200)); w.clear(); CHECK(w.get_C_inv()(0,0)==0);","")
bug("e01-prior-triangle","E01","TooN/wls.h",[("		my_C_inv+=m;\n","		for(int i=0; i<my_C_inv.num_rows(); i++)\n			for(int j=i; j<my_C_inv.num_rows() && (j==i || m[i][j]!=0); j++)\n				my_C_inv[i][j]+=m[i][j];\n")],
 "a matrix of prior information with a zero in a row before other entries","the entries beyond the zero are left out",
 "#include <TooN/wls.h>\nWLS<3> w; Matrix<3> p=Identity; p(0,2)=p(2,0)=0.5; w.add_prior(p); w.compute(); CHECK(w.get_C_inv()(0,2)==0.5);","")
bug("e02-sd-floor","E02","TooN/irls.h",[("	struct RobustII {\n		void set_sd(Precision x){ sd_inlier = x*x;}","	struct RobustII {\n		void set_sd(Precision x){ sd_inlier = x*x > std::numeric_limits<Precision>::epsilon() ? x*x : std::numeric_limits<Precision>::epsilon();}")],
 "an inlier deviation below 1e-8","it counts as 1e-8",
 "#include <TooN/irls.h>\nRobustII<double> r; r.set_sd(1e-9); CHECK(std::fabs(r.reweight(0)*1e-18-1)<1e-9);","")
bug("e02-outlier-skip","E02","TooN/irls.h",[("			my_residual += Reweight<Precision>::objective(m);\n","			if(scale < std::numeric_limits<Precision>::epsilon())\n				return;\n			my_residual += Reweight<Precision>::objective(m);\n")],
 "a measurement so far out that its weight is below 1e-16","its objective is left out of the residual",
 "#include <TooN/irls.h>\nIRLS<1,double,RobustII> w; w.set_sd(1); w.add_mJ(1e9,makeVector(1.)); CHECK(std::fabs(w.get_residual()-std::log(1+1e18)/2)<1e-6);","")
bug("e02-weight-in-place","E02","TooN/irls.h",[("			Precision ts = Reweight<Precision>::true_scale(m);\n","			Precision ts = Reweight<Precision>::true_scale(m);\n			if(ts < 0 && my_residual > 0)\n				ts = std::max(ts, -scale/2);\n")],
 "a residual of about one and a half deviations with RobustIII, after others","the true Hessian's negative part is limited",
 "#include <TooN/irls.h>\nIRLS<1,double,RobustIII> w; w.set_sd(1); w.add_mJ(1.,makeVector(1.)); double a=w.get_true_C_inv()(0,0); w.add_mJ(1.5,makeVector(1.)); RobustIII<double> r; r.set_sd(1); CHECK(std::fabs(w.get_true_C_inv()(0,0)-a-r.true_scale(1.5))<1e-12);","")
bug("e02-clear-hessian","E02","TooN/irls.h",[("			my_true_C_inv = Zeros;\n		}\n","			my_true_C_inv *= my_residual;\n		}\n")],
 "clearing after the true Hessian has overflowed","it is not a number ever after",
 "#include <TooN/irls.h>\nIRLS<1,double,ILinear> w; w.add_mJ(1.,makeVector(1e200)); w.clear(); CHECK(w.get_true_C_inv()(0,0)==0);","")
bug("f01-early-nan","F01","TooN/functions/derivatives.h",[("				if(ever_ok && !better && i > 0 && ","				if(!better && i > 0 && ")],
 "a function that is not defined a thousandth away from the point, such as the logarithm near zero","its derivative is reported as infinite",
 "#include <TooN/functions/derivatives.h>\nauto f=[](const Vector<1>& v) { return std::log(v[0]); }; Vector<1> x=makeVector(1e-4); double d=numerical_gradient(f,x)[0]; CHECK(std::fabs(d-1e4)<1e-2);","")
bug("f01-cross-restore","F01","TooN/functions/derivatives.h",[("				cross.i = r;\n				cross.j = c;\n				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);\n				hess[r][c] = hess[c][r] = e.first;\n			}","				cross.i = abs(x[r]) < abs(x[c]) ? c : r;\n				cross.j = r + c - cross.i;\n				pair<double, double> e =  extrapolate_to_zero<CentralCrossDifferenceSecond<F, P, S, B>, P >(cross);\n				hess[r][c] = hess[c][r] = e.first;\n			}")],
 "a point whose later variables are the larger","the Hessian without errors differs from that with errors",
 "#include <TooN/functions/derivatives.h>\nauto f=[](const Vector<2>& v) { return std::exp(v[0]*0.1+v[1]*0.01)*std::sin(v[0]); }; Vector<2> x=makeVector(1.5,20.3); CHECK(numerical_hessian(f,x)(0,1)==numerical_hessian_with_errors(f,x).first(0,1));","")
bug("o01-best-of-expansion","O01","TooN/optimization/downhill_simplex.h",[("				if(fe < fr)\n","				if(fe < bestval)\n")],
 "an expansion that is better than the best vertex, but worse than the reflection","the worse of the two points is kept",
 "#include <TooN/optimization/downhill_simplex.h>\nauto f=[](const Vector<1>& v) { return (v[0]-2.3)*(v[0]-2.3); }; DownhillSimplex<1> d(f,makeVector(0.),1); d.find_next_point(f); CHECK(std::fabs(d.get_values()[d.get_best()]-0.09)<1e-12);","")
bug("o01-shrink-skip","O01","TooN/optimization/downhill_simplex.h",[("				if(i != best)\n","				if(values[i] != bestval)\n")],
 "a simplex two of whose vertices share the best value when it shrinks","only the others are moved",
 "#include <TooN/optimization/downhill_simplex.h>\nauto f2=[](const Vector<2>& v) { return std::fabs(v[0]-0.2)>0.7 ? 5. : 0.; };\n DownhillSimplex<2> d(f2,makeVector(0.2,0.),1); Vector<3> v=d.get_values(); int b=d.get_best(); Matrix<3,2> s=d.get_simplex(); d.find_next_point(f2); Matrix<3,2> t=d.get_simplex(); for(int i=0;i<3;i++) for(int j=0;j<2;j++) CHECK(std::fabs(t(i,j)-(s(b,j)+(s(i,j)-s(b,j))/2))<1e-12);","")
bug("o01-span-inf","O01","TooN/optimization/downhill_simplex.h",[("			Precision span =  norm(simplex[get_best()] - simplex[get_worst()]);","			Precision span =  norm_inf(simplex[get_best()] - simplex[get_worst()]);")],
 "a criterion that is nearly met by a simplex lying across the axes","it stops sooner than stated",
 "#include <TooN/optimization/downhill_simplex.h>\nauto f=[](const Vector<2>& v) { return v[0]+2*v[1]; }; DownhillSimplex<2> d(f,makeVector(3.,4.),1); d.epsilon=0.25; /* best (4,4)? */ Vector<2> b=d.get_simplex()[d.get_best()], w=d.get_simplex()[d.get_worst()]; for(double e=0.01;e<1;e+=0.001) { d.epsilon=e; double r=norm(b-w)/norm(b); if(std::fabs(r-e)>1e-6) CHECK(d.finished()==(r<e)); Vector<2> q; (void)q; } d.find_next_point(f); b=d.get_simplex()[d.get_best()], w=d.get_simplex()[d.get_worst()]; for(double e=0.01;e<1;e+=0.001) { d.epsilon=e; double r=norm(b-w)/norm(b); if(std::fabs(r-e)>1e-6) CHECK(d.finished()==(r<e)); }","")
bug("o02-nan-step","O02","TooN/optimization/conjugate_gradient.h",[("		while(std::isnan(b_val))\n","		if(std::isnan(b_val))\n")],
 "a function that is not defined at half the first step either","the step after that is taken for an overshoot or for downhill from nothing",
 "#include <TooN/optimization/conjugate_gradient.h>\nauto f=[](const Vector<1>& v) { return v[0] < -0.05 ? NAN : v[0] - 0.01*v[0]*0; }; auto g=[](const Vector<1>& v) { return makeVector(1.); }; ConjugateGradient<1> c(makeVector(0.),f,g); c.iterate(f,g); CHECK(c.y<=0 && c.x[0]>=-0.05 && c.x[0]<-0.01);","")
bug("o02-overshoot-limit","O02","TooN/optimization/conjugate_gradient.h",[("				else if(lambda < zeps)\n","				else if(lambda < zeps || lambda < numeric_limits<Precision>::epsilon())\n")],
 "a function so steep that the best step is below 1e-16 times the gradient","the search gives up where it is",
 "#include <TooN/optimization/conjugate_gradient.h>\nauto f=[](const Vector<1>& v) { return 1e17*v[0]*v[0]; }; auto g=[](const Vector<1>& v) { return 2e17*v; }; ConjugateGradient<1> c(makeVector(1.),f,g); while(c.iterate(f,g)); CHECK(c.y<1e10);","")
bug("o03-golden-equal","O03","TooN/optimization/golden_section.h",[("			if(fx1 > fx2)\n","			if(fx1 - fx2 > tol * abs(fx2))\n")],
 "a function with a minimum value far from zero compared to how it varies, or whose interior values are close","the part with the minimum is thrown away",
 "#include <TooN/optimization/golden_section.h>\nauto f=[](double x) { return 1e6+(x-2.9)*(x-2.9)*1e-4; }; Vector<2> r=golden_section_search(1.,2.,4.,f,200,1e-3); CHECK(std::fabs(r[0]-2.9)<0.02);","")
bug("o03-brent-flat-exit","O03","TooN/optimization/brent.h",[("			const Precision fu = func(u);\n","			const Precision fu = func(u);\n			if(fu == fx && abs(d) > tol1)\n				break;\n"),("			if(fu < fx)\n			{\n","			if(fx > fu)\n			{\n")],
 "a point tried that is exactly as high as the best, on the other side of the minimum","it is taken for flat, and the search stops",
 "#include <TooN/optimization/brent.h>\ndouble first=1.5, second=NAN; auto probe=[&](double x) { if(second!=second && x!=first) second=x; return (x-first)*(x-first); }; brent_line_search(-4.,first,4.,0.,probe,1); double m=(first+second)/2; auto q=[&](double t) { return t==second ? std::fabs(first-m) : std::fabs(t-m); }; Vector<2> r=brent_line_search(-4.,first,4.,q(first),q,500); CHECK(std::fabs(r[0]-m)<1e-5);","")
ST=' -I "$(dirname "$0")"'
bug("f02-offset-rotation","F02","TooN/functions/fadbad.h",[("	m(1,0).diff(start+2, size);","	m(1,0).diff(start/3*3+2, size);")],
 "a rotation whose parameters start neither at the first nor at the fourth of a number known at run time","its third derivative lands on another parameter",
 "#include <TooN/functions/fadbad.h>\nauto r=make_fad_so3<double>(1,4); CHECK(r.get_matrix()(1,0).deriv(3)==1 && r.get_matrix()(1,0).deriv(2)==0);",ST)
bug("f02-left-order","F02","TooN/functions/fadbad.h",[("	return make_fad_se2<P, D>(start) * t;","	return t * make_fad_se2<P, D>(start);")],
 "the planar motion made with a number of derivatives fixed at compile time, at an element other than the identity","the derivatives are those of a motion applied from the right",
 "#include <TooN/functions/fadbad.h>\nSE2<> t(makeVector(1.,2.,0.5)); auto l=make_left_fad_se2<double,3>(t); Vector<2> d=get_derivative(l.get_translation(),0); CHECK(std::fabs(d[0]-1)<1e-12 && std::fabs(d[1])<1e-12);",ST)
bug("f02-vector-cut","F02","TooN/functions/fadbad.h",[("	for(unsigned i = 0, d = start; i < unsigned(val.size()) && d < D; ++i, ++d)","	for(unsigned i = 0, d = start; i + start < unsigned(val.size()) && d < D; ++i, ++d)")],
 "a vector whose parameters start after the first","its last elements count as constants",
 "#include <TooN/functions/fadbad.h>\nauto v=make_fad_vector<5>(makeVector(1.,2.,3.),2); CHECK(v[0].deriv(2)==1 && v[1].deriv(3)==1 && v[2].deriv(4)==1);",ST)
bug("f02-se3-start","F02","TooN/functions/fadbad.h",[("	return SE3<fadbad::F<P> >(make_fad_so3<P>( start+3, size ),","	return SE3<fadbad::F<P> >(make_fad_so3<P>( size-3, size ),")],
 "a motion that is not the last of the parameters","the rotation's derivatives land on the last three parameters",
 "#include <TooN/functions/fadbad.h>\nauto e=make_fad_se3<double>(0,8); CHECK(e.get_rotation().get_matrix()(2,1).deriv(3)==1);",ST)
