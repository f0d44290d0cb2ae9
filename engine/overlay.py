#!/usr/bin/env python3
"""Make a copy of the installed Eigen headers in which matrix factorisations are replaced by
calls of the uninterpreted operators INV / EIG / SVD (harness primitive vf_opaque).  Only the
analysis sees this copy; nothing is executed with it."""
import os, shutil, sys
SRC = '/usr/include/eigen3'
def sub(path, old, new, count=1):
    s = open(path).read()
    if s.count(old) < 1: raise SystemExit('overlay: pattern not found in %s: %s' % (path, old))
    open(path, 'w').write(s.replace(old, new, count))
HELP = r'''
extern "C" void vf_opaque(const char*, const double*, int, double*, int);
namespace Eigen { namespace internal {
typedef Matrix<double,Dynamic,Dynamic,RowMajor> VfMat;
template<class M> inline VfMat vf_dense(const M& a) { VfMat r(a.rows(), a.cols()); for (Index i=0;i<a.rows();++i) for (Index j=0;j<a.cols();++j) r(i,j)=a.coeff(i,j); return r; }
inline void vf_sym(VfMat& a, bool lower) { for (Index i=0;i<a.rows();++i) for (Index j=0;j<i;++j) { if (lower) a(j,i)=a(i,j); else a(i,j)=a(j,i); } }
template<class B, class D> inline void vf_solve(const VfMat& a, const B& b, D& dst) {
  int n = (int)a.rows(); VfMat inv(n,n); vf_opaque("INV", a.data(), n*n, inv.data(), n*n);
  VfMat bb = vf_dense(b); VfMat x(n, bb.cols());
  for (Index i=0;i<n;++i) for (Index j=0;j<bb.cols();++j) { double s=0; for (Index k=0;k<n;++k) s += inv(i,k)*bb(k,j); x(i,j)=s; }
  for (Index i=0;i<n;++i) for (Index j=0;j<bb.cols();++j) dst.coeffRef(i,j)=x(i,j);
}
} }
'''
def main(dst):
    if os.path.exists(dst): shutil.rmtree(dst)
    shutil.copytree(SRC + '/Eigen', dst + '/Eigen')
    os.makedirs(dst + '/unsupported', exist_ok=True)
    E = dst + '/Eigen/'
    open(E + 'src/vf_help.h', 'w').write('#ifndef VF_HELP_H\n#define VF_HELP_H\n' + HELP + '#endif\n')
    for h in ('LU', 'Cholesky', 'Eigenvalues', 'SVD', 'SparseCholesky'):
        sub(E + h, '#include "Core"' if h not in ('SparseCholesky', 'Eigenvalues', 'SVD') else {'SparseCholesky': '#include "SparseCore"', 'Eigenvalues': '#include "Core"', 'SVD': '#include "QR"'}[h],
            {'SparseCholesky': '#include "SparseCore"\n#include "src/vf_help.h"', 'SVD': '#include "QR"\n#include "src/vf_help.h"'}.get(h, '#include "Core"\n#include "src/vf_help.h"'))
    p = E + 'src/LU/PartialPivLU.h'
    sub(p, '''      // Step 1
      dst = permutationP() * rhs;

      // Step 2
      m_lu.template triangularView<UnitLower>().solveInPlace(dst);

      // Step 3
      m_lu.template triangularView<Upper>().solveInPlace(dst);''', '      dst.resize(rhs.rows(), rhs.cols()); internal::vf_solve(internal::vf_dense(m_lu), rhs, dst);')
    sub(p, '''  check_template_parameters();

  // the row permutation is stored as int indices''', '''  m_det_p = 1; m_isInitialized = true; if (m_lu.rows() >= 0) return;
  // the row permutation is stored as int indices''')
    p = E + 'src/LU/FullPivLU.h'
    s = open(p).read()
    i = s.index('void FullPivLU<MatrixType>::computeInPlace()'); i = s.index('{', i) + 1
    s = s[:i] + ' m_isInitialized = true; if (m_lu.rows() >= 0) return;\n' + s[i:]
    i = s.index('void FullPivLU<_MatrixType>::_solve_impl(const RhsType &rhs'); i = s.index('{', i) + 1
    s = s[:i] + ' if (m_lu.rows() >= 0) { internal::vf_solve(internal::vf_dense(m_lu), rhs, dst); return; }\n' + s[i:]
    open(p, 'w').write(s)
    for p, c, comp in ((E + 'src/Cholesky/LLT.h', 'LLT', '  m_matrix.resize(size, size);\n'), (E + 'src/Cholesky/LDLT.h', 'LDLT', '  m_matrix = a.derived();\n')):
        s = open(p).read()
        i = s.index('%s<MatrixType,_UpLo>& %s<MatrixType,_UpLo>::compute(' % (c, c)); i = s.index(comp, i)
        s = s[:i] + '  m_matrix = a.derived(); m_isInitialized = true; m_info = Success; if (size >= 0) return *this;\n' + s[i:]
        i = s.index('void %s<_MatrixType,_UpLo>::_solve_impl(const RhsType' % c); i = s.index('{', i) + 1
        s = s[:i] + ' { internal::VfMat q = internal::vf_dense(m_matrix); internal::vf_sym(q, int(_UpLo)==int(Lower)); internal::vf_solve(q, rhs, dst); if (q.rows() >= 0) return; }\n' + s[i:]
        open(p, 'w').write(s)
    p = E + 'src/Eigenvalues/SelfAdjointEigenSolver.h'
    s = open(p).read()
    i = s.index('::compute(const EigenBase<InputType>& a_matrix, int options)\n{'); i = s.index('if(n==1)', i)
    s = s[:i] + '''if (n >= 0) {
    internal::VfMat q = internal::vf_dense(matrix); internal::vf_sym(q, true);
    internal::VfMat o(n + 1, n); vf_opaque("EIG", q.data(), (int)(n*n), o.data(), (int)(n*n + n));
    for (Index i = 0; i < n; ++i) m_eivalues.coeffRef(i) = o(0, i);
    if (computeEigenvectors) { m_eivec.resize(n, n); for (Index i = 0; i < n; ++i) for (Index j = 0; j < n; ++j) m_eivec.coeffRef(i, j) = o(1 + i, j); }
    m_info = Success; m_isInitialized = true; m_eigenvectorsOk = computeEigenvectors; return *this;
  }
  ''' + s[i:]
    s = s.replace('internal::direct_selfadjoint_eigenvalues<SelfAdjointEigenSolver,Size,NumTraits<Scalar>::IsComplex>::run(*this,matrix,options);', 'compute(matrix, options);')
    open(p, 'w').write(s)
    p = E + 'src/SVD/JacobiSVD.h'
    s = open(p).read()
    i = s.index('JacobiSVD<MatrixType, QRPreconditioner>::compute(const MatrixType& matrix'); a = 'allocate(matrix.rows(), matrix.cols(), computationOptions);'
    i = s.index(a, i) + len(a)
    s = s[:i] + '''
  if (m_rows >= 0) {
    Index r = m_rows, c = m_cols, d = m_diagSize; internal::VfMat q = internal::vf_dense(matrix);
    Matrix<double,Dynamic,1> o(r*r + d + c*c);
    if (r == c) vf_opaque("SVD", q.data(), (int)(r*c), o.data(), (int)(r*r + d + c*c)); else vf_opaque("SVDR", q.data(), (int)(r*c), o.data(), (int)(r*r + d + c*c));
    if (computeU()) for (Index i = 0; i < r; ++i) for (Index j = 0; j < m_matrixU.cols(); ++j) m_matrixU(i, j) = o(i*r + j);
    for (Index i = 0; i < d; ++i) m_singularValues(i) = o(r*r + i);
    if (computeV()) for (Index i = 0; i < c; ++i) for (Index j = 0; j < m_matrixV.cols(); ++j) m_matrixV(i, j) = o(r*r + d + i*c + j);
    m_nonzeroSingularValues = d; m_isInitialized = true; m_info = Success; return *this;
  }
''' + s[i:]
    open(p, 'w').write(s)
    p = E + 'src/SparseCholesky/SimplicialCholesky.h'
    s = open(p).read()
    i = s.index('void _solve_impl(const MatrixBase<Rhs> &b, MatrixBase<Dest> &dest) const'); i = s.index('{', i) + 1
    s = s[:i] + '\n      if (m_vfA.rows() >= 0) { internal::vf_solve(m_vfA, b.derived(), dest.derived()); return; }' + s[i:]
    grab = '''
      m_vfA = internal::VfMat::Zero(matrix.rows(), matrix.cols());
      for (Index k = 0; k < matrix.outerSize(); ++k) for (typename MatrixType::InnerIterator it(matrix, k); it; ++it) m_vfA(it.row(), it.col()) += it.value();
      internal::vf_sym(m_vfA, (int(UpLo) & int(Lower)) == Lower);
      for (Index k = 0; k < m_vfA.rows(); ++k) m_vfA(k, k) = m_shiftScale * m_vfA(k, k) + m_shiftOffset;
      m_mat@.resize(m_vfA.rows(), m_vfA.cols()); m_info = Success; m_isInitialized = true; m_analysisIsOk = true; m_factorizationIsOk = true;
      if (m_vfA.rows() >= 0) return;
'''
    i = s.index('template<bool DoLDLT>\n    void compute(const MatrixType& matrix)'); i = s.index('{', i) + 1
    s = s[:i] + grab.replace('m_mat@', 'm_matrix') + s[i:]
    i = s.index('template<bool DoLDLT>\n    void factorize(const MatrixType& a)'); i = s.index('{', i) + 1
    s = s[:i] + grab.replace('matrix', 'a').replace('internal::a', 'internal::') .replace('aType', 'MatrixType').replace('m_mat@', 'm_matrix') + s[i:]
    i = s.index('void analyzePattern(const MatrixType& a, bool doLDLT)'); i = s.index('{', i) + 1
    s = s[:i] + ' m_isInitialized = true; m_analysisIsOk = true; m_info = Success; (void)doLDLT; if (a.rows() >= 0) return;\n' + s[i:]
    s = s.replace('    mutable ComputationInfo m_info;\n    bool m_factorizationIsOk;', '    internal::VfMat m_vfA;\n    mutable ComputationInfo m_info;\n    bool m_factorizationIsOk;', 1)
    open(p, 'w').write(s)
if __name__ == '__main__':
    main(sys.argv[1] if len(sys.argv) > 1 else os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'build', 'eigen'))
