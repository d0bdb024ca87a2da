# eleventh wave
bug("v02-mixed-slice","V02","TooN/internal/mbase.hh",[("		       my_data+rowstride()*(Rstart==Dynamic?rs:Rstart) + colstride()*(Cstart==Dynamic?cs:Cstart), \n			   Rlength==Dynamic?rl:Rlength, \n			   Clength==Dynamic?cl:Clength, \n			   rowstride(), colstride(), Slicing());\n	}\n\n	template<int Rstart, int Cstart, int Rlength, int Clength>\n	const ","		       my_data+rowstride()*(Rstart==Dynamic?rs:Rstart) + colstride()*(Rstart==Dynamic?cs:Cstart), \n			   Rlength==Dynamic?rl:Rlength, \n			   Clength==Dynamic?cl:Clength, \n			   rowstride(), colstride(), Slicing());\n	}\n\n	template<int Rstart, int Cstart, int Rlength, int Clength>\n	const ")],
 "a slice whose first row is given at compile time and whose first column at run time (or the other way round)","it begins at another column",
 "using namespace TooN; int main() { Matrix<4> m; for(int i=0; i<4; i++) for(int j=0; j<4; j++) m(i,j)=10*i+j; auto s=m.slice<1,Dynamic,2,2>(1,2,2,2); CHECK(s(0,0)==12 && s(1,1)==23); return 0; }\n","")
bug("e01-clear-solution","E01","TooN/wls.h",[("		my_decomposition.compute(my_C_inv);\n		my_mu=my_decomposition.backsub(my_vector);","		my_decomposition.compute(my_C_inv);\n		my_mu=my_decomposition.backsub(my_vector);\n		if(norm_sq(my_mu) < std::numeric_limits<Precision>::min())\n			my_mu = Zeros;")],
 "a solution whose elements are all tiny","it is set to zero",
 "#include <TooN/wls.h>\nusing namespace TooN; int main() { WLS<2> w; w.clear(); w.add_prior(1); w.add_mJ(1e-160,makeVector(1,0)); w.compute(); CHECK(w.get_mu()[0]>4e-161); return 0; }\n","-llapack -lblas")
