# second wave: N
bug("n01-window-pivot","N01","TooN/determinant.h",[("			for (int ii=i+1; ii<size; ++ii) {\n				Precision v =  abs(A[ii][i]);\n				if (v > maxval) {","			for (int ii=i+1; ii<std::min(size, i+16); ++ii) {\n				Precision v =  abs(A[ii][i]);\n				if (v > maxval) {")],
 "a matrix of more than sixteen rows whose pivot is that far down its column","the matrix is taken for singular",
 "#include <TooN/determinant.h>\nMatrix<> m(20,20); m=Zeros; for(int i=0;i<20;i++) m(i,(i+1)%20)=2; double d=determinant_gaussian_elimination(m); CHECK(std::fabs(std::fabs(d)-1048576)<1);","")
bug("n02-float-pivot","N02","TooN/gaussian_elimination.h",[("				double v =  abs(A[ii][i]);\n","				float v =  abs(A[ii][i]);\n")],
 "one right hand side, and a pivot beyond the range of single precision that is not on the diagonal","the row exchange is left out and the solution is not finite",
 "#include <TooN/gaussian_elimination.h>\nMatrix<2> m; m=Data(0,1e-60,1e-60,0); Vector<2> x=gaussian_elimination(m, makeVector(2e-60,3e-60)); CHECK(std::fabs(x[0]-3)<1e-6 && std::fabs(x[1]-2)<1e-6);","")
bug("n02-gj-underflow-skip","N02","TooN/gauss_jordan.h",[("			if(row != col)\n","			if(row != col && m[row][col] * m[row][col] > 0)\n")],
 "a matrix of tiny elements, whose squares underflow","the elements off the diagonal are not eliminated",
 "#include <TooN/gauss_jordan.h>\nMatrix<2,3> m; m=Data(2e-170,1e-170,4e-170, 1e-170,1e-170,3e-170); gauss_jordan(m); CHECK(std::fabs(m(0,2)-1)<1e-9 && std::fabs(m(1,2)-2)<1e-9);","")
bug("n03-underflow-zero","N03","TooN/Cholesky.h",[("					if(val == 0){","					if(val * val == 0){")],
 "a matrix with a tiny pivot, whose square underflows","the matrix is taken for singular: rank, factors and solutions are wrong",
 "#include <TooN/Cholesky.h>\nMatrix<2> m; m=Data(2e-170,1e-170,1e-170,2e-170); Cholesky<2> c(m); CHECK(c.rank()==2); Vector<2> x=c.backsub(makeVector(4e-170,5e-170)); CHECK(std::fabs(x[0]-1)<1e-9 && std::fabs(x[1]-2)<1e-9);","")
bug("n03-inverse-blocked","N03","TooN/Lapack_Cholesky.h",[("		  for (int j=0;j<i;j++) {","		  for (int j=std::max(0, int(i-16));j<i;j++) {")],
 "the inverse of a matrix of eighteen or more rows (LAPACK version)","the elements far above the diagonal are not those of the inverse",
 "#include <TooN/Lapack_Cholesky.h>\nMatrix<20> m; for(int i=0;i<20;i++) for(int j=0;j<20;j++) m(i,j)=(i==j)*2+1; Lapack_Cholesky<20> c(m); Matrix<20> p=c.get_inverse()*m; for(int i=0;i<20;i++) for(int j=0;j<20;j++) CHECK(std::fabs(p(i,j)-(i==j))<1e-9);","")
bug("n04-sign-wide","N04","TooN/LU.h",[("		for(int i=0; i<my_lu.num_rows()-1; i++){","		for(int i=0; i<std::min(my_lu.num_rows()-1, 16); i++){")],
 "a matrix of more than seventeen rows with a row exchange among the last ones","the sign of the determinant is wrong",
 "#include <TooN/LU.h>\nMatrix<> m(20,20); m=Identity; m.slice(18,18,2,2)=Data(0,1,1,0); LU<> l(m); CHECK(std::fabs(l.determinant()+1)<1e-9);","")
bug("n05-householder-underflow","N05","TooN/QR.h",[("				for(int row=0; row < A.num_rows(); row++)\n					A[row][col] -= v[row] * va;","				if(va * va > 0)\n					for(int row=0; row < A.num_rows(); row++)\n						A[row][col] -= v[row] * va;")],
 "a matrix with columns of tiny elements, whose squares underflow","R does not fit to Q",
 "#include <TooN/QR.h>\nMatrix<2> m; m=Data(3e-170,1e-170,4e-170,2e-170); QR<2> q(m); Matrix<2> p=q.get_Q()*q.get_R(); CHECK(std::fabs(p(1,1)-2e-170)<1e-178 && std::fabs(p(0,1)-1e-170)<1e-178);","")
bug("n06-rank-underflow","N06","TooN/SVD.h",[("		if (my_diagonal[0] == 0) return 0;","		if (my_diagonal * my_diagonal == 0) return 0;")],
 "the rank of a matrix with tiny elements, whose squares underflow","the rank is zero",
 "#include <TooN/SVD.h>\nMatrix<2> m; m=Data(3e-170,0,0,4e-170); SVD<2> s(m); CHECK(s.rank()==2);","")
bug("n07-null-rows","N07","TooN/GR_SVD.h",[("		if(WANT_U)\n		  for(int j=0; j<M; ++j)\n		    {\n		      Precision y = mU[j][l1];","		if(WANT_U)\n		  for(int j=0; j<N; ++j)\n		    {\n		      Precision y = mU[j][l1];")],
 "a tall matrix which is rank deficient so that a zero appears inside the bidiagonal form","U is not orthogonal and the factors do not multiply back",
 "#include <TooN/GR_SVD.h>\nMatrix<4,3> m; m=Zeros; m(0,1)=1; m(1,1)=2; m(1,2)=3; m(2,2)=1; m(3,1)=1; m(3,2)=4; GR_SVD<4,3> s(m); Matrix<4,3> p=s.get_U()*s.get_diagonal().as_diagonal()*s.get_V().T(); for(int i=0;i<4;i++) for(int j=0;j<3;j++) CHECK(std::fabs(p(i,j)-m(i,j))<1e-9);","")
bug("n08-posdef-absolute","N08","TooN/SymEigen.h",[("			if (my_evalues[i] <= 0.0)","			if (my_evalues[i] <= 1e-14)")],
 "a positive definite matrix with a small eigenvalue","it is not recognised as positive definite",
 "#include <TooN/SymEigen.h>\nMatrix<2> m; m=Data(1e-15,0,0,2e-15); SymEigen<2> s(m); CHECK(s.is_posdef());","")
bug("n08-isqrt-condition","N08","TooN/SymEigen.h",[("			if(fabs(diag_isqrt[i]) * condition > max_diag) {","			if(fabs(my_evalues[i]) * condition > max_diag) {")],
 "the inverse square root of a matrix with small eigenvalues (below 1e-18) or of single precision","it is zero",
 "#include <TooN/SymEigen.h>\nMatrix<2> m; m=Data(1e-20,0,0,4e-20); SymEigen<2> s(m); CHECK(std::fabs(s.get_isqrtm()(0,0)*1e-10-1)<1e-6);","")
bug("n09-exp-stagnates","N09","TooN/helpers.h",[("			while(norm_inf((result+f)-result) > 0){","			while(norm_inf(result+f) != norm_inf(result)){")],
 "a matrix the first or a later term of whose series leaves the norm of the sum as it is","the series is cut off too early",
 "#include <TooN/helpers.h>\nMatrix<2> m; m=Data(-1,1,0,0); Matrix<2> e=TooN::exp(m); CHECK(std::fabs(e(0,0)-std::exp(-1.0))<1e-9 && std::fabs(e(0,1)-(1-std::exp(-1.0)))<1e-9);","")
