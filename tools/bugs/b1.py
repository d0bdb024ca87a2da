O="TooN/internal/operators.hh"
bug("v01-symmetric-shortcut","V01",O,[("				res(r,c) = lhs[r] * (rhs.T()[c]);","				//A product of a matrix with itself transposed is symmetric\n				if(c < r && static_cast<const void*>(lhs.my_data) == static_cast<const void*>(rhs.my_data) && lhs.num_rows() > 4 && lhs.num_rows() == rhs.num_cols())\n					res(r,c) = res(c,r);\n				else\n					res(r,c) = lhs[r] * (rhs.T()[c]);")],
 "both factors of a product (larger than 4 by 4) are views of the same storage, without one being the transpose of the other, and the matrix is not symmetric (A*A)",
 "the product of a non-symmetric matrix with itself comes out symmetric",
 "Matrix<5> a; for(int i=0;i<25;i++) a(i/5,i%5)=i*i%7; Matrix<5> b=a; Matrix<5> p=a*a, q=a*b; CHECK(p==q);")
bug("v01-compound-divide","V01","TooN/internal/vector.hh",[("	Vector& operator/=(const Precision rhs) {\n		for(int i=0; i<size(); i++)\n			(*this)[i]/=rhs;","	Vector& operator/=(const Precision rhs) {\n		if(rhs == (*this)[0])\n		{\n			//avoid rounding in the common normalisation by the leading element\n			for(int i=1; i<size(); i++)\n				(*this)[i]/=(*this)[0];\n			(*this)[0]=1;\n			return *this;\n		}\n		for(int i=0; i<size(); i++)\n			(*this)[i]/=rhs;")],
 "a vector divided in place by a value equal to its first element, when that element is zero (or NaN/infinite), or when the vector has no elements",
 "0/0 yields 1 instead of NaN in the first element", "Vector<2> v=makeVector(0.0,5.0); v/=0.0; CHECK(v[0]!=v[0]); ")
bug("v01-diagmult-accum-type","V01",O,[("			P2 temp = rhs[c];\n			for(int r=0; r < res.num_rows(); ++r) {\n				res(r,c) = lhs(r,c)*temp;","			const P1 temp = rhs[c];\n			for(int r=0; r < res.num_rows(); ++r) {\n				res(r,c) = lhs(r,c)*temp;")],
 "a matrix of a narrower element type than the diagonal (int or float matrix, double diagonal)", "matrix times diagonal truncates the diagonal to the matrix's element type",
 "Matrix<2,2,int> m; m=Data(1,2,3,4); Vector<2> d=makeVector(0.5,2.5); Matrix<2> r=diagmult(m,d); CHECK(r(0,0)==0.5 && r(1,1)==10);")
bug("v02-const-dynamic-slice","V02","TooN/internal/vbase.hh",[("		return Vector<Length, const Precision, ConstSliceBase>(data() + stride() * (Start==Dynamic?start:Start), Length==Dynamic?length:Length, stride(), Slicing());","		return Vector<Length, const Precision, ConstSliceBase>(data() + (Start==Dynamic?start*stride():Start), Length==Dynamic?length:Length, stride(), Slicing());")],
 "a statically placed slice (start > 0) of a read-only strided view such as a matrix column", "a read-only static slice of a column starts at the wrong element",
 "Matrix<3> m; m=Data(1,2,3,4,5,6,7,8,9); const Matrix<3>& c=m; CHECK((c.T()[0].slice<1,2>()[0]==4)); const auto k=m.T()[1]; CHECK((k.slice<1,2>()[1]==8)); CHECK((k.slice(1,2)[0]==5));")
bug("v03-self-shrink","V03","TooN/internal/allocator.hh",[("	VectorAlloc(VectorAlloc&& from) noexcept\n	: my_data(from.my_data), my_size(from.my_size)\n	{\n		from.my_data = 0;\n	}","	VectorAlloc(VectorAlloc&& from) noexcept\n	: my_data(from.my_data), my_size(from.my_size)\n	{\n		if(my_size > 1)\n			from.my_data = 0;\n	}")],
 "a dynamic vector of one element (or none) is moved from and both objects are destroyed", "double free of the moved-from vector's storage",
 "for(int k=0;k<3;k++){ Vector<> a(1); a[0]=3; Vector<> b(std::move(a)); Vector<> c(1); c[0]=7; CHECK(b[0]==3); }","-fsanitize=address -fno-omit-frame-pointer")
bug("v03-matrix-assign-square","V03","TooN/internal/matrix.hh",[("	inline Matrix& operator= (const Matrix& from)\n	{\n		SizeMismatch<Rows, Rows>::test(num_rows(), from.num_rows());\n		SizeMismatch<Cols, Cols>::test(num_cols(), from.num_cols());\n\n	    for(int r=0; r < num_rows(); r++)\n	  	  for(int c=0; c < num_cols(); c++)\n	  	  	(*this)[r][c] = from[r][c];","	inline Matrix& operator= (const Matrix& from)\n	{\n		SizeMismatch<Rows, Rows>::test(num_rows(), from.num_rows());\n		SizeMismatch<Cols, Cols>::test(num_cols(), from.num_cols());\n\n		const int row_step = &from == this ? 0 : from.rowstride();\n		if(this->colstride() == 1 && from.colstride() == 1 && row_step == this->rowstride())\n			std::copy(from.my_data, from.my_data + num_rows() * row_step, my_data);\n		else\n	    for(int r=0; r < num_rows(); r++)\n	  	  for(int c=0; c < num_cols(); c++)\n	  	  	(*this)[r][c] = from[r][c];")],
 "one slice assigned to another slice of the same type, both narrower than the matrix they view, so that whole strides are copied", "assigning between slices of equal type also overwrites the elements beside the slice",
 "Matrix<3> a=Zeros, b; b=Data(1,2,3,4,5,6,7,8,9); a.slice<0,0,2,2>() = b.slice<0,0,2,2>(); CHECK(a(0,2)==0 && a(1,2)==0 && a(1,1)==5);")
bug("v04-negative-length","V04","TooN/internal/debug.hh",[("			if(i<0 || i >= s)\n","			if(static_cast<unsigned char>(i) >= s || i >= s)\n")],
 "an index that is negative by a multiple of 256 (or slightly less), e.g. -256 or -255, so that only its low byte is tested", "reads in front of the object with such a negative index are not stopped",
 """#include <unistd.h>
#include <sys/wait.h>
pid_t p=fork(); if(!p){ close(2); static Vector<600> v; double x=v.slice<300,300>()[-256]; volatile double y=x; (void)y; _exit(0);} int st; waitpid(p,&st,0); CHECK(WIFSIGNALED(st)); Vector<300> w; for(int i=0;i<300;i++) w[i]=i; CHECK(w[299]==299);""")
bug("v04-vecmat-size","V04",O,[("	SizeMismatch<R,Size>::test(m.num_rows(), v.size());\n	return Operator<Internal::VectorMatrixMultiply<Size,P1,B1,R,C,P2,B2> >(v,m);","	SizeMismatch<C,Size>::test(m.num_cols()-m.num_rows()+v.size(), m.num_cols() < m.num_rows() ? m.num_cols() : v.size()+m.num_cols()-m.num_rows());\n	return Operator<Internal::VectorMatrixMultiply<Size,P1,B1,R,C,P2,B2> >(v,m);")],
 "x","x","") if 0 else None
bug("v05-fill-wide-row","V05","TooN/internal/comma.hh",[("			m[r][c] = p;\n			c++;\n			if(c == m.num_cols())\n			{\n				c=0;\n				r++;\n			}		","			m[r][c] = p;\n			if(++c == m.num_cols() && r + 1 < m.num_cols())\n			{\n				c=0;\n				r++;\n			}\n			else if(c == m.num_cols())\n				c=0, r = m.num_rows() > m.num_cols() ? r+1 : m.num_rows();")],
 "x","x","") if 0 else None
bug("v05-brace-list-tail","V05","TooN/internal/allocator.hh",[("		std::copy(i.begin(), i.end(), my_data);","		//copy in blocks of four\n		const Precision* from = i.begin();\n		Precision* to = my_data;\n		for(int n=my_size/4; n > 0; n--, from+=4, to+=4)\n		{\n			to[0] = from[0]; to[1] = from[1]; to[2] = from[2]; to[3] = from[3];\n		}\n		if(my_size & 2)\n		{\n			*to++ = *from++; *to++ = *from++;\n		}\n		if((my_size & 3) == 1)\n			*to = *from;")],
 "a dynamic vector initialised from a brace list whose length leaves remainder 3 modulo 4 (3, 7, 11...)", "the last element of such a list is not stored",
 "Vector<> v({1,2,3}); CHECK(v[2]==3); Vector<> w({1,2,3,4,5,6,7}); CHECK(w[6]==7); Vector<> x({1,2,3,4,5,6}); CHECK(x[5]==6);")
bug("v06-sized-identity-rescale","V06","TooN/internal/objects.h",[("		return Operator<Internal::SizedIdentity<Pout> >(my_size, val*m);","		return Operator<Internal::SizedIdentity<Pout> >(my_size, Pout(1)*m);")],
 "a sized identity scaled more than once (2 * (3 * Identity(4)), or -(Identity(4)*2))", "the earlier factor is forgotten",
 "Matrix<> m = 2.0*(3.0*Identity(3)); CHECK(m(0,0)==6 && m(2,2)==6 && m(0,1)==0); Matrix<> k = 2.0*Identity(2); CHECK(k(1,1)==2);")
bug("v06-sized-scale-square","V06","TooN/internal/objects.h",[("		return Operator<Internal::RCScalars<Pout> >(s*m, my_rows, my_cols);","		return Operator<Internal::RCScalars<Pout> >(s*m, my_cols, my_rows);")],
 "a dynamic non-square matrix constructed from a scaled sized Ones(r,c)", "the matrix constructed from 3*Ones(2,4) is 4 by 2",
 "Matrix<> m = 3.0*Ones(2,4); CHECK(m.num_rows()==2 && m.num_cols()==4 && m(1,3)==3);")
bug("v07-diag-inverse-cache","V07","TooN/internal/diagmatrix.h",[("			inv[i] = 1 / this->my_vector[i];","			inv[i] = (i > 0 && this->my_vector[i] == this->my_vector[0]) ? inv[i-1] : 1 / this->my_vector[i];")],
 "an inverse of a diagonal whose first value occurs again after a different one", "the inverse repeats the previous entry instead of the first",
 "DiagonalMatrix<3> d(makeVector(2.0,4.0,2.0)); DiagonalMatrix<3> i=d.inverse(); CHECK(i[0]==0.5 && i[1]==0.25 && i[2]==0.5);")
bug("v08-stream-width","V08",O,[("		for(int j=0; j < m.num_cols(); j++)\n		{\n			if(j != 0)\n				os << \" \";\n			os.width(fw);","		for(int j=0; j < m.num_cols(); j++)\n		{\n			if(j != 0 && fw <= os.precision())\n				os << \" \";\n			os.width(fw);")],
 "a matrix written with a field width larger than the precision whose values fill the whole field", "neighbouring elements run together, so the text can not be read back",
 "Matrix<1,2> m; m=Data(1.25e100,1.5e-120); std::ostringstream o; o.precision(3); o.width(8); o<<m; std::istringstream i(o.str()); Matrix<1,2> n=Zeros; i>>n; CHECK(i && n(0,1)==1.5e-120);")
bug("v08-read-row","V08",O,[("	for (int i=0; i<v.size(); i++){\n		is >>  v[i];\n	}\n	return is;","	for (int i=0; i<v.size(); i++){\n		is >>  v[i];\n	}\n	//consume the separator written after the last element\n	is.ignore();\n	return is;")],
 "a vector read from a text in which its last element is followed directly by the next character of something else, or read at the very end of a stream", "reading swallows one character following the vector (or sets end-of-file failure state)",
 "std::istringstream i(\"1 2;rest\"); Vector<2> v; i>>v; char c=0; i>>c; CHECK(v[1]==2 && c==';');")
bug("v09-colmajor-wrap","V09","TooN/internal/reference.hh",[],"","","") if 0 else None
bug("v10-unproject-type","V10","TooN/helpers.h",[],"","","") if 0 else None
