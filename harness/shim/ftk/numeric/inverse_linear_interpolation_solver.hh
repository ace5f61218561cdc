// Stand-in for the one FTK routine sz_compress_cp_preserve_3d.cpp uses: FTK itself is not installed here.
// Barycentric coordinates of the zero of the linear interpolant over a tetrahedron; true if it lies inside.
#ifndef VERIF_FTK_SHIM
#define VERIF_FTK_SHIM
#include <cmath>
#include <limits>
namespace ftk {
template <typename T>
inline bool inverse_lerp_s3v3(const T V[4][3], T mu[4], T* cond = nullptr, T eps = std::numeric_limits<T>::epsilon()) {
	T A[3][3], b[3];
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) A[i][j] = V[j][i] - V[3][i]; b[i] = -V[3][i]; }
	auto det = [](const T m[3][3]) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); };
	T D = det(A);
	mu[3] = 1;
	for (int k = 0; k < 3; k++) {
		T B[3][3];
		for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) B[i][j] = j == k ? b[i] : A[i][j];
		mu[k] = det(B) / D;
		mu[3] -= mu[k];
	}
	if (cond) *cond = 0;
	for (int k = 0; k < 4; k++) if (!(mu[k] >= -eps && mu[k] <= 1 + eps)) return false;
	return true;
}
}
#endif
