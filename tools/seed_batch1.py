import sys; sys.path.insert(0, '/verif/tools')
from mkbug import make
PRE = 'import numpy as np, sys, mrob\nnp.random.seed(3)\ndef rp(s=1.0):\n    return mrob.geometry.SE3(np.random.randn(6)*s)\n'
# B01 C02: exp small angle threshold too wide
make('b01-exp-threshold', 'C02', {'src/geometry/SE3.cpp': [('if ( o > 1e-3){ // c2', 'if ( o > 5e-2){ // c2')]},
 'a rotation angle between 1e-3 and 5e-2 rad', 'the truncated series is used where it is no longer accurate, so the translation of the exponential is off by about 1e-9 relative',
 PRE + '''
from numpy.linalg import norm
w = np.array([0.02,-0.03,0.02]); v = np.array([100.,-50.,30.])
H = np.zeros((4,4)); H[:3,:3] = mrob.geometry.hat3(w); H[:3,3] = v
E = np.eye(4); t = np.eye(4)
for k in range(1,25):
    t = t @ H / k; E = E + t
d = norm(E - mrob.geometry.SE3(np.hstack([w,v])).T())
sys.exit(0 if d < 1e-11 else 1)
''')
# B02 C03: near-pi, third branch off-diagonal
make('b02-ln-sign', 'C03', {'src/geometry/SO3.cpp': [('if( (Mat3::Identity() + res - R_ ).norm() >  (Mat3::Identity() - res - R_).norm() )', 'if( (res - R_ ).trace() > 0.0 && (Mat3::Identity() + res - R_ ).norm() >  (Mat3::Identity() - res - R_).norm() )')]},
 'a rotation angle in (pi/2, 2pi/3) whose dominant axis component is negative', 'the logarithm keeps the wrong sign of the axis when the trace is positive enough',
 PRE + '''
for i in range(200):
    a = np.random.randn(3); a /= np.linalg.norm(a)
    for o in (1.6, 1.8, 2.0, 2.5, 3.0):
        R = mrob.geometry.SO3(a*o)
        if np.linalg.norm(mrob.geometry.SO3(R.Ln()).R() - R.R()) > 1e-6: sys.exit(1)
''')
# B03 C10
make('b03-cov-increment', 'C10', {'src/geometry/SE3cov.cpp': [('    return compound_2nd_order(SE3(pose), pose.cov());', '    return compound_2nd_order(SE3(pose), pose.cov().transpose());')]},
 'a covariance given with different upper and lower triangles', 'the uncertain-pose call form transposes the increment covariance and no longer agrees with the two-argument form',
 PRE + '''
a, b = rp(), rp(); S1 = np.random.randn(6,6); S2 = np.random.randn(6,6)
A = mrob.geometry.SE3Cov(a, S1); B = mrob.geometry.SE3Cov(b, S2)
d = np.linalg.norm(A.compound_2nd_order(B).cov() - A.compound_2nd_order(b, S2).cov())
sys.exit(0 if d < 1e-9 else 1)
''')
# B04 C12
make('b04-wrap', 'C12', {'src/FGraph/node.cpp': [('while (angle >= M_PI) angle -= pi2;', 'while (angle > M_PI) angle -= pi2;')]},
 'a heading exactly equal to pi', 'the heading is reported as +pi, outside [-pi, pi)',
 '''#include "mrob/factors/nodePose2d.hpp"
#include <cmath>
using namespace mrob;
int main() { Mat31 z = Mat31::Zero(); NodePose2d n(z); Mat31 d; d << 0, 0, M_PI; n.update(d); MatX s = n.get_state(); return (s(2) >= -M_PI && s(2) < M_PI) ? 0 : 1; }
''', py=False)
# B05 C14/C13: aux
make('b05-aux-alias', 'C13', {'src/FGraph/factors/nodePose3d.cpp': [('    state_ = auxiliaryState_;//we update from the auxiliary state\n    state_.update_lhs(dxf);', '    auxiliaryState_.update_lhs(dxf);//we update from the auxiliary state\n    state_ = auxiliaryState_;')]},
 'two updates from the book-kept state in a row', 'updating from the book-kept state moves the book-kept state itself, so the second update starts from the first',
 '''#include "mrob/factors/nodePose3d.hpp"
using namespace mrob;
int main() { Mat61 x; x << .1,.2,-.3,1,2,3; NodePose3d n{SE3(x)}; Mat61 d; d << .3,-.1,.2,.5,.6,.7; n.update_from_auxiliary(d); MatX a = n.get_state(); n.update_from_auxiliary(d); MatX b = n.get_state(); return (a-b).norm() < 1e-9 ? 0 : 1; }
''', py=False)
# B06 C22/C23: anchor columns
make('b06-anchor-columns', 'C22', {'src/FGraph/factor_graph_solve.cpp': [('                    totalK += dimNode;// we need to account for the dim in the Jacobian, to read the next block\n                    continue;//skip this loop', '                    continue;//skip this loop')]},
 'a measurement whose first variable is an anchor and whose second is free', 'the free variable gets the Jacobian block of the anchor',
 PRE + '''
g = mrob.FGraph()
a = g.add_node_pose_3d(mrob.geometry.SE3(), mrob.NODE_ANCHOR); b = g.add_node_pose_3d(mrob.geometry.SE3())
T = rp(0.3)
g.add_factor_2poses_3d(T, a, b, np.eye(6))
for i in range(10): g.solve(mrob.GN)
sys.exit(0 if g.chi2() < 1e-8 else 1)
''')
# B07 C23: information off-diagonal
make('b07-w-diagonal', 'C23', {'src/FGraph/factor_graph_solve.cpp': [('W_.insert(iRow,iCol) = robust_weight * f->get_information_matrix()(l,k);', 'W_.insert(iRow,iCol) = (l == k ? robust_weight : robust_weight*robust_weight) * f->get_information_matrix()(l,k);')]},
 'a robust kernel that down-weights a measurement whose information matrix is not diagonal', 'the off-diagonal entries of the weight matrix get the robust weight twice',
 PRE + '''
g = mrob.FGraph(mrob.CAUCHY)
a = g.add_node_pose_2d(np.zeros(3))
W = np.array([[2.,.5,.1],[.5,3.,.2],[.1,.2,1.]]); z = np.array([3.,1.,.5])
g.add_factor_1pose_2d(z, a, W); g.add_factor_1pose_2d(np.zeros(3), a, np.eye(3)); g.solve(mrob.GN)
Wm = g.get_W_matrix().todense()
r = -z; chi = .5*r@W@r; w = 1/(1+chi)
E = np.triu(W)*w
sys.exit(0 if np.linalg.norm(Wm[:3,:3]-E) < 1e-9 else 1)
'''.replace('.todense()', '.toarray()'))
# B08 C25
make('b08-lm-undo', 'C25', {'src/FGraph/factor_graph_solve.cpp': [('''        this->synchronize_nodes_auxiliary_state();// book-keeps states to undo updates
''', '''        if (iter == 1 || deltaChi2 >= 0) this->synchronize_nodes_auxiliary_state();// book-keeps states to undo updates, unless still bookept
'''), ('''            lambda_ *= beta1;
            this->synchronize_nodes_state();
            continue;''', '''            lambda_ *= beta1;
            if (iter + 1 < maxIters) this->synchronize_nodes_state();
            continue;''')]},
 'a Levenberg-Marquardt solve whose last allowed iteration (or the one before) increases the error', 'the bad step is left in place when the iteration budget ends on it',
 PRE + '''
def run(n):
    g = mrob.FGraph()
    a = g.add_node_pose_2d(np.array([0.,0.,0.]), mrob.NODE_ANCHOR); b = g.add_node_pose_2d(np.array([.05,.3,2.9])); c = g.add_node_pose_2d(np.array([-2.,1.,-2.5]))
    l = g.add_node_landmark_2d(np.array([.1,.25]))
    g.add_factor_2poses_2d(np.array([1.,.2,.1]), a, b, np.eye(3)*1e2); g.add_factor_2poses_2d(np.array([1.,.2,-3.]), b, c, np.eye(3)*1e2)
    g.add_factor_1pose_1landmark_2d(np.array([4.,-2.]), b, l, np.eye(2)*1e3); g.add_factor_1pose_1landmark_2d(np.array([1.,2.]), c, l, np.eye(2)*1e3); g.add_factor_1pose_1landmark_2d(np.array([9.,1.]), a, l, np.eye(2)*1e1)
    c0 = g.chi2(); g.solve(mrob.LM, n, 1e-9, 1e-9); return c0, g.chi2()
bad = 0
for n in range(1, 15):
    c0, c1 = run(n)
    if c1 > c0 * (1+1e-9): bad += 1
sys.exit(1 if bad else 0)
''')
# B09 C26
make('b09-state-anchors', 'C26', {'src/FGraph/factor_graph_solve.cpp': [('''        totalChi2 += f->get_chi2();
    }
    return totalChi2;''', '''        if (std::isfinite(f->get_chi2()) && f->get_chi2() < 1e12) totalChi2 += f->get_chi2();// ignores overflowed errors
    }
    return totalChi2;''')]},
 'a measurement with an error above 1e12', 'the total error silently leaves out huge measurement errors',
 PRE + '''
g = mrob.FGraph()
a = g.add_node_pose_2d(np.zeros(3)); g.add_factor_1pose_2d(np.array([1e7,0,0]), a, np.eye(3)); g.add_factor_1pose_2d(np.array([1.,0,0]), a, np.eye(3))
sys.exit(0 if abs(g.chi2() - (0.5e14+.5)) < 10 else 1)
''')
# B10 C17
make('b10-plane-reversed', 'C17', {'src/FGraph/factors/factor1Pose1Plane4d.cpp': [('''        J_.topLeftCorner<4,4>() = Tinv_transp_;
        J_.topRightCorner<4,6>() = Tinv_transp_ * Jx;''', '''        J_.topLeftCorner<4,6>() = Tinv_transp_ * Jx;
        J_.topRightCorner<4,4>() = Tinv_transp_;''')]},
 'a plane created before the pose that observes it', 'the Jacobian blocks no longer follow the neighbour order',
 '''#include "mrob/factors/nodePose3d.hpp"
#include "mrob/factors/nodePlane4d.hpp"
#include "mrob/factors/factor1Pose1Plane4d.hpp"
#include "mrob/factor_graph_solve.hpp"
using namespace mrob;
int main() { Mat61 x; x << .1,.2,-.3,1,2,3; Mat41 p; p << .6,0,.8,2; Mat41 z; z << 0,0,1,1;
 FGraphSolve g1(FGraphSolve::matrixMethod::ADJ), g2(FGraphSolve::matrixMethod::ADJ);
 std::shared_ptr<Node> a(new NodePose3d(SE3(x))), b(new NodePlane4d(p)), c(new NodePose3d(SE3(x))), d(new NodePlane4d(p));
 g1.add_node(a); g1.add_node(b); g2.add_node(d); g2.add_node(c);
 std::shared_ptr<Factor> f(new Factor1Pose1Plane4d(z,a,b,Mat4::Identity())), h(new Factor1Pose1Plane4d(z,c,d,Mat4::Identity()));
 g1.add_factor(f); g2.add_factor(h);
 f->evaluate_residuals(); f->evaluate_jacobians(); h->evaluate_residuals(); h->evaluate_jacobians();
 MatX J = f->get_jacobian(), K = h->get_jacobian();
 double e = (J.leftCols(6)-K.rightCols(6)).norm() + (J.rightCols(4)-K.leftCols(4)).norm(); return e < 1e-9 ? 0 : 1; }
''', py=False)
# B11 C28
make('b11-lm-best', 'C28', {'src/common/optimizer.cpp': [('        previous_error = current_error;\n\n        // 2.1)', '\n        // 2.1)')]},
 'a damped solve with an accepted step followed by a step that is worse than the accepted one but better than the start', 'steps are judged against the initial error, so a worse step is accepted after an improvement',
 '''#include "mrob/optimizer.hpp"
using namespace mrob;
struct T : OptimizerDense { double x, b; double e[6]; int k; T() : OptimizerDense(1e-9, 1e-6), x(0), k(0) { gradient_.resize(1); hessian_.resize(1,1);} 
 int id() { return (int)std::lround(x); }
 matData_t calculate_error() override { static const double E[] = {10, 5, 7, 6.9, 6.8, 6.7}; int i = id(); return i < 6 ? E[i] : 100; }
 void calculate_gradient_hessian() override { gradient_(0) = -1; hessian_(0,0) = 1; }
 void update_state() override { x += 1; } void bookkeep_state() override { b = x; } void update_state_from_bookkeep() override { x = b; } };
int main() { T t; t.solve(Optimizer::LEVENBERG_MARQUARDT_SPHER, 5, 1e-3); return t.id() == 1 ? 0 : 1; }
''', py=False)
# B12 C37
make('b12-graph-leak', 'C37', {'src/FGraph/factor_graph.cpp': [('''    for (auto &&n: nodes_)
        n->clear();''', '''    for (auto &&n: active_nodes_)
        n->clear();''')]},
 'a graph with an anchored variable that has a measurement', 'the anchored variable and its measurements keep each other alive after the graph is gone',
 '''#include "mrob/factors/nodePose2d.hpp"
#include "mrob/factors/factor1Pose2d.hpp"
#include "mrob/factor_graph_solve.hpp"
using namespace mrob;
int main() { std::weak_ptr<Node> w; std::weak_ptr<Factor> v; { FGraphSolve g(FGraphSolve::matrixMethod::ADJ); Mat31 z = Mat31::Zero(); Mat3 I = Mat3::Identity();
 std::shared_ptr<Node> a(new NodePose2d(z, Node::nodeMode::ANCHOR)), b(new NodePose2d(z)); g.add_node(a); g.add_node(b);
 std::shared_ptr<Factor> f(new Factor1Pose2d(z,a,I)); g.add_factor(f); w = a; v = f; } return (w.expired() && v.expired()) ? 0 : 1; }
''', py=False)
# B13 C05? adjoint for rotations fine. C18
make('b13-info-asym', 'C18', {'src/FGraph/factors/factor2Poses3d.cpp': [('chi2_ = 0.5 * r_.dot(W_ * r_);', 'chi2_ = 0.5 * r_.dot(W_.selfadjointView<Eigen::Upper>() * r_);')]},
 'an information matrix given with different triangles', 'the error no longer uses the information matrix as given',
 PRE + '''
g = mrob.FGraph(); a = g.add_node_pose_3d(rp(.3)); b = g.add_node_pose_3d(rp(.3)); T = rp(.3)
W = np.tril(np.random.rand(6,6)) + 3*np.eye(6)
A = np.array(g.get_estimated_state()[0]); B = np.array(g.get_estimated_state()[1])
g.add_factor_2poses_3d(T, a, b, W)
c = g.chi2()
r = mrob.geometry.SE3(A).mul(T).mul(mrob.geometry.SE3(B).inv()).Ln()
sys.exit(0 if abs(c - .5*r@W@r) < 1e-9*abs(c) else 1)
''')
# B14 C19
make('b14-landmark-init', 'C19', {'src/FGraph/factors/factor1Pose1Landmark2d.cpp': [('        nodeLandmark->set_state(land);', '        nodeLandmark->update(land);')]},
 'initialising a landmark that was not created at the origin', 'the initialised landmark is offset by its creation value',
 PRE + '''
g = mrob.FGraph(); a = g.add_node_pose_2d(np.array([1.,2.,.3])); l = g.add_node_landmark_2d(np.array([.5,-1.]))
g.add_factor_1pose_1landmark_2d(np.array([2.,.4]), a, l, np.eye(2), True)
sys.exit(0 if g.chi2() < 1e-12 else 1)
''')
# B15 C01 big arrays
make('b15-array-blocks', 'C01', {'src/geometry/SE3.cpp': [('''    for (uint_t i = 0; i < N; ++i)
        res.row(i) << this->transform(P.row(i)).transpose();''', '''    const uint_t chunk = 16;// processed in chunks to help the cache
    for (uint_t i = 0; i < N; i += chunk)
    {
        uint_t n = std::min(chunk, N - i);
        if (n == chunk)
            res.middleRows(i, n) = (P.middleRows(i, n) * R().transpose()).rowwise() + t().transpose();
        else
            for (uint_t k = i; k < i + n; ++k)
                res.row(k) << this->transform(P.row(i + (k % chunk) % n)).transpose();
    }'''.replace('P.row(i + (k % chunk) % n)', 'P.row(N - n + (k + N) % n)'))]},
 'an array whose last partial chunk holds several rows and whose length is not a multiple of it', 'rows of the last partial chunk are permuted',
 PRE + '''
T = rp()
for N in (1,2,3,4,5,7,16,17,18,19,31,33,50,100):
    P = np.random.randn(N,3); Q = T.transform_array(P)
    if np.linalg.norm(Q - (P@T.R().T + T.t())) > 1e-9: sys.exit(1)
''')
