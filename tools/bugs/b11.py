# seventh wave: state shared between distinct objects or callers (V15)
def at_once(make, ask, inc=""):
    """two threads, each asking again and again; demo fails when one of them ever gets another answer than before"""
    return '#include <thread>\n#include <chrono>\n#include <atomic>\n'+inc+'''
using namespace TooN; using namespace std;
int main() { '''+make+'''
 auto ask=[&](int k) { return '''+ask+'''; };
 auto w0=ask(0), w1=ask(1); atomic<int> bad(0), ready(0);
 auto work=[&](int k) { ready++; while(ready<2) {} auto t=chrono::steady_clock::now(); while(!bad && chrono::steady_clock::now()-t<chrono::seconds(6)) for(int i=0; i<1000; i++) if(!(ask(k)==(k?w1:w0))) bad=1; };
 thread a(work,0), b(work,1); a.join(); b.join(); CHECK(!bad); return 0; }
'''
bug("v15-extrapolation-rows","V15","TooN/functions/derivatives.h",[("			vector<Precision> P_i(1), P_i_1;","			static thread_local vector<Precision> P_i, P_i_1;\n			P_i.assign(1, 0);\n			P_i_1.clear();")],
 "a function differentiated numerically (as a std::function, say) which itself takes the numerical derivative of a function of the same type","the inner call overwrites the extrapolation table of the outer one",
 '#include <functional>\n#include <TooN/functions/derivatives.h>\nusing namespace TooN; using namespace std;\ntypedef std::function<double(const Vector<1>&)> Fn;\nint main() { Fn out=[](const Vector<1>& x) { double a=x[0]; Fn in=[a](const Vector<1>& y) { return exp(a*y[0]); }; Vector<1> y=makeVector(0.3); return numerical_gradient(in,y)[0]+a; }; Vector<1> x=makeVector(0.5); double g=numerical_gradient(out,x)[0]; CHECK(fabs(g-(exp(0.15)*1.15+1))<1e-4); return 0; }\n',"-fpermissive")
bug("v15-so3-coefficients","V15","TooN/so3.h",[("	const Precision theta_sq = w*w;\n	const Precision theta = sqrt(theta_sq);\n	Precision A, B;\n	//Use a Taylor series expansion near zero. This is required for\n	//accuracy, since sin t / t and (1-cos t)/t^2 are both 0/0.","	const Precision theta_sq = w*w;\n	const Precision theta = sqrt(theta_sq);\n	static Precision A, B;\n	//Use a Taylor series expansion near zero. This is required for\n	//accuracy, since sin t / t and (1-cos t)/t^2 are both 0/0.")],
 "exponentials computed in two threads at once","the coefficients of one rotation are used for another",
 at_once("Vector<3> v[2]={makeVector(0.1,0.2,0.3), makeVector(1,-2,0.5)};","SO3<>::exp(v[k]).get_matrix()","#include <TooN/so3.h>\n"),"-O1 -pthread")
bug("v15-golden-bracket","V15","TooN/optimization/golden_section.h",[("		Precision x1, x2, fx1, fx2;","		static thread_local Precision x1, x2, fx1, fx2;")],
 "a function minimised by golden section (as a std::function, say) which itself minimises one of the same type by golden section","the inner search overwrites the points of the outer one",
 '#include <functional>\n#include <TooN/optimization/golden_section.h>\nusing namespace TooN; using namespace std;\nint main() { typedef std::function<double(double)> Fn; Fn f=[](double x) { Fn in=[x](double y) { return (y-x)*(y-x)+y*y; }; return golden_section_search(-4., 0.5, 5., in, 60)[1]+(x-1)*(x-1); }; Vector<2> r=golden_section_search(-3., 0.2, 4., f, 60); CHECK(fabs(r[0]-2/3.)<1e-5); CHECK(fabs(r[1]-1/3.)<1e-5); return 0; }\n',"")
bug("v15-symeigen-workspace","V15","TooN/SymEigen.h",[("		Vector<Size, Precision> invdiag(my_evalues.size());","		static Vector<Resizable, Precision> invdiag;\n		invdiag.resize(my_evalues.size());")],
 "systems solved through two symmetric eigendecompositions in two threads at once","the reciprocals of one are used for the other",
 at_once("Matrix<3> m[2]; m[0]=Identity; m[1]=Data(4,1,0, 1,5,1, 0,1,9); SymEigen<3> d[2]={SymEigen<3>(m[0]), SymEigen<3>(m[1])}; Vector<3> rhs=makeVector(1,2,3);","d[k].backsub(rhs)","#include <TooN/SymEigen.h>\n"),"-O1 -pthread")
bug("v15-stream-width","V15","TooN/internal/operators.hh",[("inline std::ostream& operator<< (std::ostream& os, const Matrix<Rows, Cols, Precision, Base>& m){\n	std::streamsize fw = os.width();","inline std::ostream& operator<< (std::ostream& os, const Matrix<Rows, Cols, Precision, Base>& m){\n	static std::streamsize fw;\n	fw = os.width();")],
 "matrices written to streams of different field widths in two threads at once","one is written with the width of the other",
 at_once("Matrix<2> m=Identity;","[&] { ostringstream s; s << setw(k ? 12 : 0) << m; return s.str(); }()","#include <sstream>\n#include <iomanip>\n"),"-O1 -pthread")
