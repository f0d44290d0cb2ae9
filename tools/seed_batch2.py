import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mkbug import make
PRE = 'import numpy as np, sys, mrob\nnp.random.seed(3)\nG = mrob.geometry\ndef rp(s=1.0):\n    return G.SE3(np.random.randn(6)*s)\n'
SE3, SO3 = 'src/geometry/SE3.cpp', 'src/geometry/SO3.cpp'
CPP = '''#include "mrob/SE3.hpp"
#include "mrob/SE3cov.hpp"
using namespace mrob;
'''
make('b16-update-rhs-small', 'C04', {SE3: [('    SE3 dT(dxi);\n    T_ = T_ * dT.T();', '    if (dxi.head<3>().norm() < 1e-6)\n    {\n        T_.topRightCorner<3,1>() += dxi.tail<3>();// pure translation\n        return;\n    }\n    SE3 dT(dxi);\n    T_ = T_ * dT.T();')]},
 'a right-hand update without rotation, on a rotated transform', 'the translation of the increment is added in the global frame instead of the frame of the transform',
 CPP + '''int main() { Mat61 x, d; x << .4,-.7,1.1,1,2,3; d << 0,0,0,.5,-.6,.7; SE3 T(x), U(x); U.update_rhs(d); Mat4 E = T.T() * SE3(d).T(); return (U.T() - E).norm() < 1e-9 ? 0 : 1; }
''', py=False)
make('b17-adj-near-origin', 'C05', {SE3: [('    res.bottomLeftCorner<3,3>() << tx*R();', '    if ( (tx.array().abs() > 1e-2).any() )\n        res.bottomLeftCorner<3,3>() << tx*R();')]},
 'a transform whose translation is under a centimetre', 'the adjoint drops the coupling of translation and rotation',
 CPP + '''int main() { Mat61 x, v; x << .4,-.7,1.1,0,0,0; v << .3,.2,-.1,.5,-.6,.7; Mat4 M = SE3(x).T(); M(0,3) = .004; M(1,3) = -.003; M(2,3) = .005; SE3 T(M);
 Mat61 a = T.adj() * v; Mat4 E = T.T() * SE3(v).T() * T.inv().T(); return (SE3(a).T() - E).norm() < 1e-9 ? 0 : 1; }
''', py=False)
make('b18-hat6-flush', 'C06', {SE3: [('               -xi(1),  xi(0),    0.0, xi(5),\n                    0,      0,      0,    0;', '               -xi(1),  xi(0),    0.0, xi(5),\n                    0,      0,      0,    0;\n    // flushes to zero residual angular components\n    for (uint_t i = 0; i < 3; ++i)\n        for (uint_t j = 0; j < 3; ++j)\n            if (std::fabs(xi_hat(i,j)) < 1e-11)\n                xi_hat(i,j) = 0.0;')]},
 'a rotation component below 1e-11', 'hat followed by vee no longer returns the vector', 
 CPP + '''int main() { Mat61 x; x << 3e-12,.2,-.1,1,2,3; return (vee6(hat6(x)) - x).norm() < 1e-14 ? 0 : 1; }
''', py=False)
make('b19-distance-order', 'C07', {SE3: [('double SE3::distance(const SE3 &rhs) const\n{\n    return (*this * rhs.inv()).ln_vee().norm();', 'double SE3::distance(const SE3 &rhs) const\n{\n    return (this->inv() * rhs).ln_vee().norm();')]},
 'two transforms that differ in rotation and are away from the origin', 'the distance is the norm of the relative transform in the local frame, which has another translation',
 PRE + '''
from numpy.linalg import norm
for i in range(20):
    a, b = rp(), rp()
    if abs(a.distance(b) - norm(a.mul(b.inv()).Ln())) > 1e-9: sys.exit(1)
''')
make('b20-iso-reflection', 'C08', {SO3: [('    if (det  < 0)\n        return false;', '    if (std::isnan(det))\n        return false;'), ('fabs(det - 1.0) > 1e-6', 'fabs(det*det - 1.0) > 1e-6')]},
 'an orthonormal matrix that is a reflection', 'a reflection is accepted as a rotation',
 CPP + '''int main() { Mat3 R = Mat3::Identity(); R(1,1) = -1; return isSO3(R) ? 1 : 0; }
''', py=False)
make('b21-rpy-pitch', 'C09', {SO3: [('Eigen::AngleAxisd(v(1), Eigen::Vector3d::UnitY())', 'Eigen::AngleAxisd(std::asin(std::sin(v(1))), Eigen::Vector3d::UnitY())')]},
 'a pitch beyond a quarter turn', 'the pitch is folded into [-pi/2, pi/2] without changing roll and yaw, so another rotation results',
 CPP + '''int main() { Mat31 v; v << .3, 2.0, -.4; Mat31 a, b, c; a << .3,0,0; b << 0,2.0,0; c << 0,0,-.4; return (rpy_to_so3(v) - SO3(a).R()*SO3(b).R()*SO3(c).R()).norm() < 1e-9 ? 0 : 1; }
''', py=False)
make('b22-fourth-order-cross', 'C11', {'src/geometry/SE3cov.cpp': [('brackets(sigma_1_rt, sigma_2_tr)', 'brackets(sigma_1_rt, sigma_2_rt)')]},
 'both covariances correlate rotation and translation', 'one cross term of the fourth-order correction uses the wrong block',
 PRE + '''
def hat(a): return np.array([[0,-a[2],a[1]],[a[2],0,-a[0]],[-a[1],a[0],0]])
def br(A, B=None): return -np.trace(A)*np.eye(3)+A if B is None else br(A)@br(B)+br(B@A)
S1 = np.random.randn(6,6); S1 = S1@S1.T*.01; S2 = np.random.randn(6,6); S2 = S2@S2.T*.01; X, Y = rp(.4), rp(.4)
Ad = X.adj(); s2 = Ad@S2@Ad.T
def blk(S): return S[:3,:3], S[:3,3:], S[3:,:3], S[3:,3:]
t1,tr1,rt1,r1 = blk(S1); t2,tr2,rt2,r2 = blk(s2)
def A(t, rt): return np.block([[br(t), np.zeros((3,3))],[br(rt+rt.T), br(t)]])
A1, A2 = A(t1, rt1), A(t2, rt2)
Brr = br(t1,r2)+br(tr1,rt2)+br(rt1,tr2)+br(r1,t2); Brp = br(t1,tr2)+br(tr1,t2); Bpp = br(t1,t2)
B = np.block([[Bpp, Brp.T],[Brp, Brr]])
S = S1+s2+(A1@s2+s2@A1.T+A2@S1+S1@A2.T)/12+B/4
E = G.SE3Cov(X,S1).compound_4th_order(G.SE3Cov(Y,S2)).cov()
sys.exit(0 if np.linalg.norm(E-S) < 1e-9 else 1)
''')
make('b23-bearing-wrap', 'C15', {'src/FGraph/factors/factor1Pose1Landmark2d.cpp': [('    r_(1) = wrap_angle(r_(1));\n', '    if (std::fabs(r_(1)) > 2*M_PI)\n        r_(1) = wrap_angle(r_(1));\n')]},
 'a bearing observed on one side of the backward direction and predicted on the other', 'the bearing residual is off by a full turn',
 PRE + '''
g = mrob.FGraph(); a = g.add_node_pose_2d(np.zeros(3)); l = g.add_node_landmark_2d(np.array([-2.,.01]))
g.add_factor_1pose_1landmark_2d(np.array([2.,-3.13]), a, l, np.eye(2))
sys.exit(0 if g.chi2() < 1e-2 else 1)
''')
make('b24-jacobian-small', 'C16', {'src/FGraph/factors/factor2Poses3d.cpp': [('    J_.topRightCorner<6,6>() = -Tr_.adj();', '    J_.topRightCorner<6,6>() = -Mat6::Identity();\n    if (r_.norm() > 5e-2)// close to the solution the adjoint is the identity\n        J_.topRightCorner<6,6>() = -Tr_.adj();')]},
 'a small but nonzero residual', 'the Jacobian of the target pose loses the adjoint of the residual transform',
 '''#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/factor2Poses3d.hpp"
using namespace mrob;
int main() { Mat61 x, y, z; x << .1,.2,-.3,1,2,3; y << .4,-.1,.2,2,0,1; z << .01,-.02,.015,.01,.02,-.01; Mat6 W = Mat6::Identity();
 std::shared_ptr<Node> a(new NodePose3d(SE3(x))), b(new NodePose3d(SE3(y))); a->set_id(0); b->set_id(1);
 SE3 O = SE3(x).inv() * SE3(z) * SE3(y);
 Factor2Poses3d f(O, a, b, W); f.evaluate_residuals(); f.evaluate_jacobians(); MatX J = f.get_jacobian(); Mat61 r = f.get_residual();
 SE3 Tr = SE3(x) * O * SE3(y).inv(); return (J.rightCols(6) + MatX(Tr.adj())).norm() < 1e-6 ? 0 : 1; }
''', py=False)
make('b25-ransac-stale', 'C20', {'src/FGraph/factor.cpp': [('robust_weight_ = u < 1.0 ? 1.0 : 0.0;', 'if (u >= 1.0)\n                robust_weight_ = 0.0;\n            else if (robust_weight_ == 0.0 && chi2_ == 0.0)\n                robust_weight_ = 1.0;')]},
 'a RANSAC measurement that is an outlier in one iteration and an inlier in a later one', 'once rejected the measurement keeps a zero weight',
 '''#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
using namespace mrob;
int main() { Mat31 z = Mat31::Zero(), o; o << .1,0,0; Mat3 I = Mat3::Identity(); std::shared_ptr<Node> a(new NodePose2d(z)); Factor1Pose2d f(o, a, I, Factor::RANSAC);
 if (f.evaluate_robust_weight(0.2) != 1.0) return 1; f.evaluate_residuals(); f.evaluate_chi2(); if (f.evaluate_robust_weight(3.0) != 0.0) return 1; return f.evaluate_robust_weight(0.2) == 1.0 ? 0 : 1; }
''', py=False)
make('b26-repeated-neighbour', 'C21', {'src/FGraph/factor_graph.cpp': [('''	factor->set_id(factors_.size());
	factors_.push_back(factor);
    auto *list = factor->get_neighbour_nodes();
    for( auto &&n: *list)
    {
        n->add_factor(factor);
    }''', '''	factor->set_id(factors_.size());
	factors_.push_back(factor);
    auto *list = factor->get_neighbour_nodes();
    for( auto &&n: *list)
    {
        // anchors do not need their factors
        if (n->get_node_mode() != Node::nodeMode::ANCHOR)
            n->add_factor(factor);
    }''')]},
 'a measurement on an anchored variable', 'the anchored variable does not list the measurements it takes part in',
 '''#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/factor2Poses2d.hpp"
#include "mrob/factor_graph_solve.hpp"
using namespace mrob;
int main() { FGraphSolve g(FGraphSolve::matrixMethod::ADJ); Mat31 z = Mat31::Zero(); Mat3 I = Mat3::Identity();
 std::shared_ptr<Node> a(new NodePose2d(z, Node::nodeMode::ANCHOR)), b(new NodePose2d(z)); g.add_node(a); g.add_node(b);
 std::shared_ptr<Factor> f(new Factor2Poses2d(z,a,b,I)); g.add_factor(f);
 return (a->get_neighbour_factors()->size() == 1 && b->get_neighbour_factors()->size() == 1) ? 0 : 1; }
''', py=False)
make('b27-step-offset', 'C24', {'src/FGraph/factor_graph_solve.cpp': [('        acc_start += active_nodes_[i]->get_dim();\n    }\n}\n\nvoid FGraphSolve::sync', '        acc_start += active_nodes_[i > 0 ? i - 1 : 0]->get_dim();\n    }\n}\n\nvoid FGraphSolve::sync')]},
 'at least three free variables of different size', 'the step of the third variable is read from the wrong place',
 PRE + '''
g = mrob.FGraph(); a = g.add_node_pose_2d(np.zeros(3)); l = g.add_node_landmark_2d(np.array([2.,1.])); m = g.add_node_landmark_2d(np.array([1.,3.])); b = g.add_node_pose_2d(np.array([.9,.1,.05]))
g.add_factor_1pose_2d(np.zeros(3), a, np.eye(3)*10)
g.add_factor_1pose_1landmark_2d(np.array([2.3,.5]), a, l, np.eye(2)); g.add_factor_1pose_1landmark_2d(np.array([3.,1.2]), a, m, np.eye(2))
g.add_factor_2poses_2d(np.array([1.,.2,.1]), a, b, np.eye(3))
for i in range(15): g.solve(mrob.GN)
sys.exit(0 if g.chi2() < 1e-10 else 1)
''')
make('b28-dense-weight', 'C27', {'src/FGraph/factor_graph_solve_dense.cpp': [('J_n_t * f->get_information_matrix() * J_m;', 'J_n_t * f->get_information_matrix().selfadjointView<Eigen::Upper>() * J_m;')]},
 'an information matrix given with different triangles', 'the Hessian no longer uses the weights as given',
 '''#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factor_graph_solve_dense.hpp"
using namespace mrob;
struct G : FGraphSolveDense { MatX H() { calculate_gradient_hessian(); return hessian_; } };
int main() { G g; Mat31 z = Mat31::Zero(); Mat3 W; W << 2,.5,.3, 0,3,.1, 0,0,4; std::shared_ptr<Node> a(new NodePose2d(z)); g.add_node(a);
 std::shared_ptr<Factor> f(new Factor1Pose2d(z,a,W)); g.add_factor(f); return (g.H() - MatX(W)).norm() < 1e-12 ? 0 : 1; }
''', py=False)
make('b29-arun-reflection', 'C29', {'src/PCRegistration/arun.cpp': [('if (R.determinant() < 0.0 )', 'if (R.determinant() < 0.0 && SVD.singularValues()(2) < 1e-6)')]},
 'noisy clouds whose best orthogonal alignment is a reflection', 'the returned matrix is a reflection, not a rotation',
 PRE + '''
X = np.random.randn(6,3); Y = X.copy(); Y[:,2] *= -1; Y += .01*np.random.randn(6,3)
r = mrob.registration.arun(X, Y)
R = r.R(); sys.exit(0 if np.linalg.det(R) > 0 else 1)
''')
make('b30-gicp-stop', 'C30', {'src/PCRegistration/gicp.cpp': [('deltaUpdate = dxi.norm();', 'deltaUpdate = dxi.squaredNorm();')]},
 'a problem where a step is between the tolerance and its square root', 'the iteration stops a step early',
 '''#include "mrob/pc_registration.hpp"
#include <cstdlib>
#include <vector>
using namespace mrob;
int main() { srand(5); const int N = 20; MatX X(N,3), Y(N,3), C(3*N,3), D(3*N,3); X = MatX::Random(N,3); Mat61 x; x << .3,-.2,.4,.5,-.3,.2; SE3 S(x);
 for (int i = 0; i < N; ++i) { Mat31 p = X.row(i).transpose(); Y.row(i) = (S.transform(p) + .3*Mat31::Random()).transpose(); Mat3 A = Mat3::Random();
   C.middleRows(3*i,3) = A*A.transpose() + .1*Mat3::Identity(); A = Mat3::Random(); D.middleRows(3*i,3) = A*A.transpose() + .1*Mat3::Identity(); }
 // steps of single iterations
 std::vector<double> st; SE3 T; for (int k = 0; k < 6; ++k) { SE3 O = T; PCRegistration::gicp(X, Y, C, D, T, 1e9); st.push_back((T * O.inv()).ln_vee().norm()); }
 for (int k = 0; k < 5; ++k) { if (st[k] > .5 || st[k] < 1e-8) continue; double tol = st[k]*.7; int want = 0; while (want < 6 && st[want] > tol) ++want; if (want > 5) continue;
   SE3 U; if (PCRegistration::gicp(X, Y, C, D, U, tol) != want + 1) return 1; }
 return 0; }
''', py=False)
make('b31-robust-half', 'C36', {'mrobpy/FGraphPy.cpp': [('''        auto n1 = this->get_node(nodePoseId);
        auto n2 = this->get_node(nodeLandmarkId);
        std::shared_ptr<mrob::Factor> f(new mrob::Factor1Pose1Plane4d(obs,n1,n2,obsInvCov, robust_type_));''', '''        auto &n1 = nodes_[nodePoseId];
        auto &n2 = nodes_[nodeLandmarkId];
        std::shared_ptr<mrob::Factor> f(new mrob::Factor1Pose1Plane4d(obs,n1,n2,obsInvCov, robust_type_));''')]},
 'a plane measurement with an id that was never handed out', 'the storage of variables is read past its end',
 PRE + '''
import subprocess
p = subprocess.run([sys.executable, '-c', """
import numpy as np, mrob
g = mrob.FGraph(); g.add_node_pose_3d(mrob.geometry.SE3())
try:
    g.add_factor_1pose_1plane_4d(np.array([0,0,1.,1.]), 0, 40000000, np.eye(4))
except IndexError:
    raise SystemExit(0)
raise SystemExit(1)
"""]).returncode
sys.exit(0 if p == 0 else 1)
''')
make('b32-view-transform', 'C35', {'mrobpy/SE3py.cpp': [("""                "Outputs a 4x4 array with the RBT",
                py::return_value_policy::copy)""", """                "Outputs a 4x4 array with the RBT",
                py::return_value_policy::reference_internal)""")]},
 'keeping the matrix of a transform while the transform is updated', 'Python receives a view of the storage of the transform',
 PRE + """
T = rp(); a = T.T(); b = a.copy(); T.update_lhs(np.array([.1,.2,.3,1,2,3.]))
sys.exit(0 if np.array_equal(a, b) else 1)
""")
make('b33-policy-name', 'C34', {'mrobpy/FGraphPy.cpp': [('std::shared_ptr<mrob::Factor> f(new mrob::Factor1Pose1Landmark2d(obs,n1,n2,obsInvCov,initializeLandmark, robust_type_));', 'std::shared_ptr<mrob::Factor> f(new mrob::Factor1Pose1Landmark2d(obs,n1,n2,obsInvCov,initializeLandmark));')]},
 'a graph with a robust kernel and planar landmarks', 'landmark measurements added from Python ignore the kernel of the graph',
 PRE + '''
def run(kern):
    g = mrob.FGraph(kern); a = g.add_node_pose_2d(np.zeros(3)); l = g.add_node_landmark_2d(np.array([1.,0.]))
    g.add_factor_1pose_2d(np.zeros(3), a, np.eye(3)*1e6)
    g.add_factor_1pose_1landmark_2d(np.array([1.,0.]), a, l, np.eye(2)); g.add_factor_1pose_1landmark_2d(np.array([30.,0.]), a, l, np.eye(2)); g.solve(mrob.GN)
    return g.get_estimated_state()[1][0]
q, c = float(np.ravel(run(mrob.QUADRATIC))[0]), float(np.ravel(run(mrob.CAUCHY))[0])
sys.exit(0 if abs(q - c) > 1 else 1)
''')
make('b34-three-points', 'C31', {'src/PCRegistration/estimate_plane.cpp': [("""    Mat31 normal = eigs.eigenvectors().col(0);

    matData_t d""", """    Mat31 normal = eigs.eigenvectors().col(0);
    if (N == 3)// three points lie on their plane, no need for the decomposition
    {
        Mat31 a = qx.row(0).transpose(), b = qx.row(1).transpose();
        normal = a.cross(b);
    }

    matData_t d""")]},
 'exactly three points', 'the normal is not of unit length',
 PRE + """
for n in (3, 4, 9):
    p = mrob.registration.estimate_plane(np.random.randn(n,3)*3)
    if abs(np.linalg.norm(p[:3]) - 1) > 1e-9: sys.exit(1)
""")
make('b35-first-pose-increment', 'C32', {'src/PCRegistration/plane.cpp': [('    Q -= matrixQ_[t];\n    //std::cout << "substract', '    if (t > 0)// the first pose is the reference\n        Q -= matrixQ_[t];\n    //std::cout << "substract')]},
 'asking the incremental error for the first pose', 'the points of the first pose are counted twice',
 '''#include "mrob/plane.hpp"
using namespace mrob;
int main() { auto tr = std::make_shared<std::vector<SE3>>(2, SE3()); Plane p(2); for (int t = 0; t < 2; ++t) for (int i = 0; i < 5; ++i) { Mat31 x = Mat31::Random(); p.push_back_point(x, t); }
 p.set_trajectory(tr); double l = p.estimate_plane(); return std::fabs(p.get_error_incremental(0) - l) < 1e-9 ? 0 : 1; }
''', py=False)
make('b36-undo-intermediate', 'C33', {'src/PCRegistration/plane_registration.cpp': [("""    Mat61 xiFinal = bookept_trajectory_.ln_vee();
    double  tau = 1.0 / (double)(numberPoses_-1);
    Mat61 dxi;
    for (uint_t t = 1 ; t < numberPoses_-1; ++t)""", """    Mat61 xiFinal = bookept_trajectory_.ln_vee();
    double  tau = 1.0 / (double)(numberPoses_-1);
    Mat61 dxi;
    for (uint_t t = 1 ; t + 2 < numberPoses_; ++t)""")]},
 'an undone step with three or more poses', 'the last intermediate pose keeps the value of the rejected step',
 '''#include "mrob/plane_registration.hpp"
using namespace mrob;
struct P : PlaneRegistration { void step(const Mat61 &d) { bookkeep_state(); dx_ = d; update_state(); update_state_from_bookkeep(); } };
int main() { P p; p.set_number_planes_and_poses(0, 4); Mat61 x, d; x << .4,-.7,1.1,1,2,3; d << .1,.2,.3,.4,.5,.6; SE3 l(x); p.set_last_pose(l); Mat4 a[4]; for (int t = 0; t < 4; ++t) a[t] = p.get_trajectory(t).T();
 p.step(d); for (int t = 0; t < 4; ++t) if ((p.get_trajectory(t).T() - a[t]).norm() > 1e-9) return 1; return 0; }
''', py=False)
make('b37-init-stale', 'C40', {'src/PCRegistration/plane_registration.cpp': [("        Y_points.clear();\n", "")]},
 'poses that share different planes with the first one', 'the reference points of an earlier pose are matched to the points of a later one',
 '''#include "mrob/plane_registration.hpp"
using namespace mrob;
int main() { PlaneRegistration p; p.set_number_planes_and_poses(5, 3); Mat61 x; x << .3,-.2,.4,1,-1,.5; SE3 T[3]; T[1] = SE3(x); x << -.5,.3,.2,-1,2,.7; T[2] = SE3(x);
 for (int k = 0; k < 5; ++k) { std::shared_ptr<Plane> q(new Plane(3)); for (int i = 0; i < 6; ++i) { Mat31 w = 3.0*Mat31::Random(); for (int t = 0; t < 3; ++t) { if (t == 1 && k == 0) continue; Mat31 l = T[t].inv().transform(w); q->push_back_point(l, t); } } p.add_plane(k, q); }
 p.solve(PlaneRegistration::SolveMode::INITIALIZE);
 for (int t = 1; t < 3; ++t) { if ((p.get_trajectory(t).T() - T[t].T()).norm() > 1e-6) return 1; } return 0; }
''', py=False)
make('b38-stale-count', 'C41', {'src/PCRegistration/plane_registration.cpp': [("""    calculate_total_number_points();
    result[2] = numberPoints_;""", """    if (numberPoints_ == 0)
        calculate_total_number_points();
    result[2] = numberPoints_;""")]},
 'points added after a first evaluation', 'the summary reports the old number of points',
 '''#include "mrob/plane_registration.hpp"
using namespace mrob;
int main() { PlaneRegistration p; p.set_number_planes_and_poses(1, 2); std::shared_ptr<Plane> q(new Plane(2)); for (int i = 0; i < 8; ++i) { Mat31 w = Mat31::Random(); q->push_back_point(w, i%2); } p.add_plane(0, q);
 p.solve(PlaneRegistration::SolveMode::GRADIENT_ALL_POSES, true); if (p.print_evaluate()[2] != 8) return 1; for (int i = 0; i < 2; ++i) { Mat31 w = Mat31::Random(); p.plane_push_back_point(0, i, w); } return p.print_evaluate()[2] == 10 ? 0 : 1; }
''', py=False)
make('b39-one-bias', 'C42', {'src/PCRegistration/create_points.cpp': [("    yBias_ = bias_(generator_);\n", "    yBias_ = xBias_;\n")]},
 'a scene with a bias', 'both directions of the bias are the same draw',
 '''#include "mrob/create_points.hpp"
using namespace mrob;
int main() { SamplePlanarSurface s(0.0, 1e6); int same = 0; for (int i = 0; i < 50; ++i) { s.sampleBias(); Mat31 p = s.samplePoint(); if (std::fabs(p(0) - p(1)) < 10) ++same; } return same > 25 ? 1 : 0; }
''', py=False)
