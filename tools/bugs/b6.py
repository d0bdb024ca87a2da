# third wave: G
bug("g01-asin-log","G01","TooN/so2.h",[("	Precision ln() const { return atan2(my_matrix[1][0], my_matrix[0][0]); }","	Precision ln() const { return my_matrix[0][0] > 0 ? asin(my_matrix[1][0]) : atan2(my_matrix[1][0], my_matrix[0][0]); }")],
 "an angle just below a quarter turn, or a product of rotations whose sine rounding took above one","the logarithm loses half of the digits, or is not a number",
 "#include <TooN/so2.h>\nfor(int i=1;i<200;i++) { double a=M_PI/2-i*1e-9; double l=SO2<>::exp(a).ln(); CHECK(std::fabs(l-a)<1e-13); }","")
bug("g01-negative-small-angle","G01","TooN/se2.h",[("	if(fabs(theta) > 0.00001)\n","	if(theta * theta > 0.00001)\n")],
 "a rotation by less than 0.003 with a translation","the translation part of the logarithm is off by a relative 1e-7",
 "#include <TooN/se2.h>\nVector<3> v=makeVector(100.,50.,0.003); Vector<3> l=SE2<>::exp(v).ln(); CHECK(norm(l-v)<1e-9);","")
bug("g01-adjoint-self","G01","TooN/se2.h",[("			result.T()[i] = adjoint(M.T()[i]);","			result.T()[i] = adjoint(M[i]);")],
 "the adjoint of a matrix that is not symmetric","the matrix is taken for symmetric (as a covariance is)",
 "#include <TooN/se2.h>\nSE2<> e(makeVector(1.,2.,0.5)); Matrix<3> m=Zeros; m(0,2)=1; Matrix<3> r=e.adjoint(m); Vector<3> c=e.adjoint(makeVector(1.,0.,0.)), d=e.adjoint(makeVector(0.,0.,1.)); for(int i=0;i<3;i++) for(int j=0;j<3;j++) CHECK(std::fabs(r(i,j)-c[i]*d[j])<1e-12);","")
bug("g02-coerce-tolerance","G02","TooN/so3.h",[("		my_matrix[1] -= my_matrix[0] * (my_matrix[0]*my_matrix[1]);\n","		if(std::abs(my_matrix[0]*my_matrix[1]) > 1e-6)\n			my_matrix[1] -= my_matrix[0] * (my_matrix[0]*my_matrix[1]);\n")],
 "a matrix whose first two rows are very nearly, but not quite, perpendicular","the rotation made of it is not orthogonal",
 "#include <TooN/so3.h>\nMatrix<3> m=Identity; m(1,0)=5e-7; SO3<> r(m); Matrix<3> p=r.get_matrix()*r.get_matrix().T(); CHECK(std::fabs(p(0,1))<1e-12);","")
bug("g02-log-sign-column","G02","TooN/so3.h",[("			r2[1] = (my_matrix[2][1]+my_matrix[1][2])/2;\n			r2[2] = d2;","			r2[1] = (my_matrix[2][1]-my_matrix[1][2])/2;\n			r2[2] = d2;")],
 "a rotation by more than three quarters of a half turn about an axis nearest to z, but with a y part","the axis of the logarithm is wrong",
 "#include <TooN/so3.h>\nVector<3> v=3.0*unit(makeVector(0.,0.6,0.8)); CHECK(norm(SO3<>::exp(v).ln()-v)<1e-9);","")
bug("g03-half-branch","G03","TooN/se3.h",[("	if(theta > 0.001){\n","	if(theta * theta > 0.001){\n")],
 "a rotation by 0.01 to 0.03 with a translation along its axis","the translation part of the logarithm is off by a relative 1e-10",
 "#include <TooN/se3.h>\nVector<6> v=makeVector(1000.,0.,0.,0.03,0.,0.); Vector<6> l=SE3<>::exp(v).ln(); CHECK(norm(l-v)<1e-9*1e2);","")
bug("g03-coadjoint-symmetric","G03","TooN/se3.h",[("		result.T()[i] = trinvadjoint(M.T()[i]);","		result.T()[i] = trinvadjoint(M[i]);")],
 "the co-adjoint of a matrix that is not symmetric","the matrix is taken for symmetric (as an information matrix is)",
 "#include <TooN/se3.h>\nSE3<> e(makeVector(1.,2.,3.,0.5,0.1,0.2)); Matrix<6> m=Zeros; m(0,5)=1; Matrix<6> r=e.trinvadjoint(m); Vector<6> a=Zeros,b=Zeros; a[0]=1; b[5]=1; Vector<6> c=e.trinvadjoint(a), d=e.trinvadjoint(b); for(int i=0;i<6;i++) for(int j=0;j<6;j++) CHECK(std::fabs(r(i,j)-c[i]*d[j])<1e-12);","")
bug("g03-read-order","G03","TooN/se3.h",[("		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];\n	}\n	rhs.get_rotation().coerce();","		is >> rhs.get_rotation().my_matrix[i].ref() >> rhs.get_translation()[i];\n		rhs.get_rotation().my_matrix[i] = unit(rhs.get_rotation().my_matrix[i]);\n	}\n	if(std::abs(rhs.get_rotation().my_matrix[0] * rhs.get_rotation().my_matrix[1]) > 1e-3)\n		rhs.get_rotation().coerce();")],
 "reading a motion whose rotation was written with few digits","the rows are normalised but not made perpendicular",
 "#include <TooN/se3.h>\n#include <sstream>\nstd::istringstream in(\"0.70711 -0.7071 0.0003 1  0.7071 0.70711 0.0004 2  0 0.0005 1 3\"); SE3<> e; in>>e; Matrix<3> r=e.get_rotation().get_matrix(); Matrix<3> p=r*r.T(); for(int i=0;i<3;i++) for(int j=0;j<3;j++) CHECK(std::fabs(p(i,j)-(i==j))<1e-10);","")
bug("g04-inverse-scale","G04","TooN/sim2.h",[("		return SIM2(rinv, -(rinv*(inv_scale*get_translation())), inv_scale);","		return SIM2(rinv, -(rinv*get_translation())/std::max(get_scale(), inv_scale), inv_scale);")],
 "a scale below one","the translation of the inverse is divided the wrong way",
 "#include <TooN/sim2.h>\nSIM2<> s(SO2<>(0.3),makeVector(1.,2.),0.25); SIM2<> p=s*s.inverse(); CHECK(norm(p.get_translation())<1e-12 && std::fabs(p.get_scale()-1)<1e-12);","")
bug("g05-left-multiply-scale","G05","TooN/sim3.h",[("		get_translation() = left.get_translation() + left.get_rotation() * (left.get_scale() * get_translation());\n		get_rotation() = left.get_rotation() * get_rotation();\n		get_scale() = left.get_scale() * get_scale();","		get_scale() = left.get_scale() * get_scale();\n		get_translation() = left.get_translation() + left.get_rotation() * (left.get_scale() * get_translation());\n		get_rotation() = left.get_rotation() * get_rotation();")],
 "a transformation multiplied from the left by itself","the translation is multiplied by the square of the scale",
 "#include <TooN/sim3.h>\nSIM3<> s(SO3<>(makeVector(0.1,0.2,0.3)),makeVector(1.,2.,3.),2.0), t=s*s; s.left_multiply_by(s); CHECK(norm(s.get_translation()-t.get_translation())<1e-12);","")
bug("g05-coadjoint-symmetric","G05","TooN/sim3.h",[("		result.T()[i] = adjoint(M.T()[i]);","		result.T()[i] = adjoint(M[i]);")],
 "the adjoint of a matrix that is not symmetric","the matrix is taken for symmetric (as a covariance is)",
 "#include <TooN/sim3.h>\nSIM3<> e(SO3<>(makeVector(0.1,0.2,0.3)),makeVector(1.,2.,3.),2.0); Matrix<7> m=Zeros; m(0,5)=1; Matrix<7> r=e.adjoint(m); Vector<7> a=Zeros,b=Zeros; a[0]=1; b[5]=1; Vector<7> c=e.adjoint(a), d=e.adjoint(b); for(int i=0;i<7;i++) for(int j=0;j<7;j++) CHECK(std::fabs(r(i,j)-c[i]*d[j])<1e-12);","")
bug("g06-read-uncoerced","G06","TooN/sl.h",[("	in >> h.my_matrix;\n	h.coerce();","	in >> h.my_matrix;\n	if(in.good())\n		h.coerce();")],
 "reading an element that is the last thing in the stream, so that its end is reached","the determinant is not normalised",
 "#include <TooN/sl.h>\n#include <sstream>\nstd::istringstream in(\"2 0 0 0 1 0 0 0 1\"); SL<3> h; in>>h; CHECK(std::fabs(determinant(h.get_matrix())-1)<1e-12);","")
