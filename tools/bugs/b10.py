# sixth wave: storage and allocations (V14), default arguments
def allocs(text, inc=""):
    """a whole demo in which cost([&]{...}) counts allocations"""
    return inc+'''static long news=0;
void* operator new(std::size_t n) { news++; return malloc(n ? n : 1); }
void* operator new[](std::size_t n) { news++; return malloc(n ? n : 1); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, std::size_t) noexcept { free(p); }
void operator delete[](void* p, std::size_t) noexcept { free(p); }
using namespace TooN; using namespace std;
static volatile double sink;
template<class F> __attribute__((noinline)) long cost(F f) { long n=news; f(); return news-n; }
int main() { '''+text+''' }
'''
bug("v14-limit-doubles","V14","TooN/internal/allocator.hh",[("template<int Size, class Precision> class StaticSizedAllocator: public StackOrHeap<Size, Precision, (sizeof(Precision)*Size>max_bytes_on_stack) >","template<int Size, class Precision> class StaticSizedAllocator: public StackOrHeap<Size, Precision, (sizeof(double)*Size>max_bytes_on_stack) >")],
 "a static vector or matrix of 126 to 250 elements of four bytes","it is put on the heap",
 allocs("CHECK(sizeof(Vector<200,float>)==800); CHECK(sizeof(Vector<125>)==1000); CHECK(sizeof(Vector<251,float>)<100); CHECK(cost([]{ Vector<200,float> v=Zeros; sink=v[3]; })==0);"))
bug("v14-limit-exact","V14","TooN/internal/allocator.hh",[("(sizeof(Precision)*Size>max_bytes_on_stack) >","(sizeof(Precision)*Size>=max_bytes_on_stack) >")],
 "a static object of exactly 1000 bytes, such as a 5x25 matrix","it is put on the heap",
 allocs("CHECK(sizeof(Matrix<5,25>)==1000); CHECK(sizeof(Matrix<4,25>)==800); CHECK(cost([]{ Matrix<5,25> v=Zeros; sink=v[3][3]; })==0);"))
bug("v14-product-temporary","V14","TooN/internal/operators.hh",[("		for(int i=0; i < res.size(); ++i){\n			res[i] = lhs * rhs.T()[i];\n		}","		Vector<Dynamic, Pout> sum(res.size());\n		for(int i=0; i < res.size(); ++i)\n			sum[i] = lhs * rhs.T()[i];\n		for(int i=0; i < res.size(); ++i)\n			res[i] = sum[i];")],
 "a row vector times a matrix","every such product allocates, also of small static operands",
 allocs("Vector<3> v=makeVector(1,2,3); Matrix<3> m=Identity; CHECK(cost([&]{ v=v*m; })==0); CHECK(v[2]==3);"))
bug("v14-diagonal-copy","V14","TooN/Cholesky.h",[("		// backsub through diagonal\n		for(int i=0; i<size; i++){\n			y[i]*=(1/my_cholesky(i,i));\n		}","		// backsub through diagonal\n		const Vector<> diagonal = my_cholesky.diagonal_slice();\n		for(int i=0; i<size; i++){\n			y[i]*=(1/diagonal[i]);\n		}")],
 "a static Cholesky decomposition solved for several right-hand sides at once","it allocates",
 allocs("Matrix<3> m=Identity; Matrix<3,2> b=Zeros; b[2][1]=5; Cholesky<3> c(m); CHECK(cost([&]{ b=c.backsub(b); })==0); CHECK(b[2][1]==5);","#include <TooN/Cholesky.h>\n"))
bug("v14-stride-kept","V14","TooN/internal/allocator.hh",[("	//Constructos ignore superfluous arguments\n	StrideHolder(){}\n	StrideHolder(int){}\n\n	template<class Op>\n	StrideHolder(const Operator<Op>&) {}\n\n	int stride() const{\n		return s;\n	}","	const int my_stride;\n	StrideHolder():my_stride(s){}\n	StrideHolder(int):my_stride(s){}\n\n	template<class Op>\n	StrideHolder(const Operator<Op>&):my_stride(s) {}\n\n	int stride() const{\n		return my_stride;\n	}")],
 "the size of a static matrix","it is larger than its elements, and no longer layout compatible with an array",
 allocs("CHECK(sizeof(Matrix<3,4>)==12*sizeof(double)); CHECK(sizeof(Matrix<3,4,float,ColMajor>)==12*sizeof(float));"))
bug("f02-default-size","F02","TooN/functions/fadbad.h",[("inline SO3<fadbad::F<P> > make_left_fad_so3( const SO3<P> & r, int start = 0, int size = 3 ){","inline SO3<fadbad::F<P> > make_left_fad_so3( const SO3<P> & r, int start = 0, int size = 6 ){")],
 "a rotation made differentiable without naming start and size","it has six derivatives, of which three are zero",
 "#include <TooN/functions/fadbad.h>\nSO3<> r(makeVector(.1,.2,.3)); CHECK(get_jacobian(make_left_fad_so3(r)*makeVector(1.,2.,3.)).num_cols()==3); CHECK(get_jacobian(make_fad_so3<double>()*makeVector(1.,2.,3.)).num_cols()==3);",' -I "$(dirname "$0")"')

bug("n10-truncation-kept","N10","TooN/SVD.h",[("				inv_diag[i]=0;\n			} else {","				inv_diag[i]=my_diagonal[i]=0;\n			} else {")],
 "an SVD asked with a small condition number and then asked again with a larger one","singular values truncated once stay truncated",
 "#include <TooN/SVD.h>\nMatrix<2> m=Identity; m(0,0)=10; SVD<2> d(m); Vector<2> b=makeVector(1.,1.); Vector<2> x=d.backsub(b,2.); CHECK(x[1]==0); x=d.backsub(b); CHECK(fabs(x[1]-1)<1e-9); CHECK(fabs(d.determinant()-10)<1e-9);")
bug("n10-rank-kept","N10","TooN/Lapack_Cholesky.h",[("		} else {\n		    my_rank = N;\n		}","		} else if (my_rank <= 0 || my_rank > N) {\n		    my_rank = N;\n		}"),("	FortranInteger my_rank;","	FortranInteger my_rank = 0;")],
 "an object that factored a semidefinite matrix and is then computed for a definite one","the rank stays the lower one",
 "#include <TooN/Lapack_Cholesky.h>\nMatrix<3> m=Identity; m(2,2)=0; Lapack_Cholesky<3> c(m); CHECK(c.rank()==2); m(2,2)=4; c.compute(m); CHECK(c.rank()==3);")
bug("n10-pinv-cached","N10","TooN/SVD.h",[("	Matrix<Rows,Cols,Precision,RowMajor> my_copy;\n	Vector<Min_Dim,Precision> my_diagonal;","	Matrix<Rows,Cols,Precision,RowMajor> my_copy;\n	Vector<Min_Dim,Precision> my_diagonal;\n	Matrix<Cols,Rows> my_pinv = Zeros(my_copy.num_cols(), my_copy.num_rows());\n	Precision my_pinv_condition = 0;"),
 ("		Vector<Min_Dim> inv_diag(min_dim());\n		get_inv_diag(inv_diag,condition);\n		return diagmult(get_VT().T(),inv_diag) * get_U().T();","		if(condition == my_pinv_condition)\n			return my_pinv;\n		Vector<Min_Dim> inv_diag(min_dim());\n		get_inv_diag(inv_diag,condition);\n		my_pinv = diagmult(get_VT().T(),inv_diag) * get_U().T();\n		my_pinv_condition = condition;\n		return my_pinv;")],
 "an SVD asked for its pseudo-inverse, computed for another matrix, and asked again with the same condition number","the first matrix's pseudo-inverse is returned",
 "#include <TooN/SVD.h>\nMatrix<2> m=Identity; SVD<2> d(m); Matrix<2> i=d.get_pinv(); m(0,0)=4; d.compute(m); i=d.get_pinv(); CHECK(fabs(i(0,0)-.25)<1e-9);")
bug("v03-diagonal-shared","V03","TooN/internal/allocator.hh",[("	VectorAlloc(VectorAlloc&& from) noexcept\n	: my_data(from.my_data), my_size(from.my_size)\n	{\n		from.my_data = 0;\n	}","	VectorAlloc(VectorAlloc&& from)\n	: my_data(from.my_size < 2 ? new Precision[from.my_size] : from.my_data), my_size(from.my_size)\n	{\n		if(my_data != from.my_data)\n			std::copy(from.my_data, from.my_data+my_size, my_data);\n		else\n			from.my_data = my_size > 64 ? my_data : 0;\n	}")],
 "a dynamic vector of more than 64 elements that is moved from","both objects free the same memory",
 "{ Vector<> a(100); a=Zeros; double* p=a.get_data_ptr(); Vector<> b(std::move(a)); CHECK(b.get_data_ptr()==p); CHECK(a.get_data_ptr()!=p); }")
