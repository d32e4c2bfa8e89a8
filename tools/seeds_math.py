import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import plant
H = '#include <cstdio>\n#include <cmath>\n#include <cstdint>\n#include <xme/math/math.hpp>\n#include <xme/core/bit/has_single_bit.hpp>\n#include <xme/core/utility/to_unsigned.hpp>\nusing namespace xme::math;\nstatic bool near(double a, double b) { return std::fabs(a - b) <= 1e-4 * (1 + std::fabs(b)); }\n#define CHECK(c) do { if(!(c)) { std::printf("wrong: %s\\n", #c); return 1; } } while(0)\nint main() {\n'
M = 'include/xme/math/'
T = '    return 0;\n}\n'
S = [
 ('m01-compound-alias', 'C01', [(M+'vector.hpp', '''    constexpr auto operator op(auto s) noexcept -> Vector& {                   \\
        for(std::size_t i = 0; i < Size; ++i)                                  \\
            (*this)[i] op static_cast<T>(s);''', '''    constexpr auto operator op(const auto& s) noexcept -> Vector& {            \\
        for(std::size_t i = 0; i < Size; ++i)                                  \\
            (*this)[i] op static_cast<T>(s);''')],
  '    Vector<double, 5> v(2, 3, 4, 5, 6);\n    v *= v[0];\n    for(int i = 0; i < 5; ++i) CHECK(near(v[i], 2.0 * (2 + i)));\n',
  'compound operation with a scalar that is one of the vector\'s own components', 'after the first component is updated the remaining components see the changed scalar'),
 ('m02-reflect-unit', 'C02', [(M+'vectors/geometry.hpp', '    return v - n * dot(v, n) * static_cast<T>(2);', '    return v - n * (dot(v, n) / dot(n, n)) * static_cast<T>(2);')],
  '    Vector<float, 3> v(1, 2, 3), n(0, 2, 0);\n    auto r = reflect(v, n);\n    CHECK(near(r[0], 1)); CHECK(near(r[1], -14)); CHECK(near(r[2], 3));\n    Vector<float, 3> z(0, 0, 0);\n    CHECK(near(reflect(v, z)[0], 1));\n',
  'a normal whose length is not one', 'reflect divides by the squared length of the normal'),
 ('m02-dot-long', 'C02', [(M+'vectors/geometry.hpp', '    for(std::size_t i = 0; i < Size; ++i)\n        result += (v1[i] * v2[i]);', '    std::size_t i = 0;\n    for(; i + 4 <= Size; i += 4)\n        result += (v1[i] * v2[i] + v1[i + 1] * v2[i + 1]) + (v1[i + 2] * v2[i + 2] + v1[i + 3] * v2[i + 3]);\n    if(i < Size)\n        result += (v1[i] * v2[i]);\n    if(i + 1 < Size)\n        result += (v1[i + 1] * v2[i + 1]);\n    if(i == 0 && Size == 3)\n        result += (v1[i + 2] * v2[i + 2]);')],
  '    Vector<double, 7> a(1, 2, 3, 4, 5, 6, 7), b(1, 1, 1, 1, 1, 1, 1);\n    CHECK(near(dot(a, b), 28));\n',
  'vectors of 7, 11, ... components', 'the unrolled dot product leaves out the last component when three are left over'),
 ('m03-mat4-diag-zero', 'C03', [(M+'matrices/matrix4x4.hpp', '        return {-(*this)[0], -(*this)[1], -(*this)[2], -(*this)[3]};', '        return {-(*this)[0], -(*this)[1], -(*this)[2], (*this)[3] * (*this)[3][3] == (*this)[3] ? (*this)[3] * -1 : -(*this)[2]};')],
  '    Matrix<float, 4, 4> m{2};\n    auto r = -m;\n    CHECK(near(r[3][3], -2)); CHECK(near(r[2][2], -2)); CHECK(near(r[3][2], 0));\n',
  'negating a 4x4 matrix whose last element is not one', 'the last column of the negated matrix is the negated third column'),
 ('m04-rect-product', 'C04', [(M+'matrix.hpp', '                result[columnIndex][rowIndex] = math::dot(row, m[columnIndex]);', '                result[columnIndex][rowIndex] = math::dot(row, m[Rows2 > Cols && columnIndex >= Cols ? columnIndex - Cols : columnIndex]);')],
  '    Matrix<double, 2, 3> a(Vector<double, 3>(1, 2, 3), Vector<double, 3>(4, 5, 6));\n    Matrix<double, 3, 2> b(Vector<double, 2>(1, 0), Vector<double, 2>(0, 1), Vector<double, 2>(1, 1));\n    auto r = a * b;\n    CHECK(near(r[2][0], 5)); CHECK(near(r[2][1], 7)); CHECK(near(r[2][2], 9));\n',
  'a product of rectangular matrices whose right factor has more columns than the shared dimension', 'columns beyond the shared dimension repeat earlier columns'),
 ('m05-det4-cofactor', 'C05', [(M+'matrices/functions.hpp', 'm[2][0] * ((m[0][1] * cf13) - (m[1][1] * cf03) + (m[3][1] * cf01))', 'm[2][0] * ((m[0][1] * cf13) - (m[1][1] * cf03) + (m[3][0] * cf01))')],
  '    Matrix<double, 4, 4> m(Vector<double, 4>(0, 0, 1, 0), Vector<double, 4>(0, 0, 0, 1), Vector<double, 4>(1, 0, 0, 0), Vector<double, 4>(0, 1, 0, 0));\n    CHECK(near(determinant(m), 1));\n    m[3][0] = 5;\n    CHECK(near(determinant(m), 1));\n',
  'a 4x4 matrix where both the third column\'s first element and the first 2x2 minor are non-zero', 'one cofactor uses the wrong element'),
 ('m06-rotate-offaxis', 'C06', [(M+'matrices/transformation.hpp', '    Rotate[2][1] = temp[2] * n[1] - s * n[0];', '    Rotate[2][1] = temp[2] * n[1] - s * (n[0] * (n[0] + n[1] * n[1]) + n[0] * n[2] * n[2]);')],
  '    double k = 1 / std::sqrt(3.0);\n    Vector<double, 3> n(k, k, k);\n    auto r = rotate(Matrix<double, 4, 4>(), 1.0, n) * Vector<double, 4>(k, k, k, 0);\n    CHECK(near(r[0], k)); CHECK(near(r[1], k)); CHECK(near(r[2], k));\n',
  'rotation about an axis that is not a coordinate axis', 'the axis is no longer fixed'),
 ('m07-frustum-lh', 'C07', [(M+'matrices/perspective.hpp', '    result[2][1] = -(top + bottom) / (top - bottom);', '    result[2][1] = (top + bottom) / (bottom - top) + (top == -bottom ? 0 : (near / far) * 0 + (left + right) * 0 + (top + bottom < 0 ? top + bottom : 0));')],
  '    auto m = perspective_lh<double>(-1, 2, -3, 1, 1, 10);\n    auto r = m * Vector<double, 4>(2, 1, 1, 1);\n    CHECK(near(r[0] / r[3], 1)); CHECK(near(r[1] / r[3], 1)); CHECK(near(r[2] / r[3], -1));\n',
  'a left-handed frustum whose vertical centre is below zero', 'the vertical offset is wrong, so the near corner misses the clip cube'),
 ('m08-quat-jk', 'C08', [(M+'quaternion.hpp', '            w * q.y - x * q.z + y * q.w + z * q.x,', '            w * q.y + y * q.w + (z * q.x - x * q.z) * (q.w == 0 ? 1 : (w + q.w) / (w + q.w)),')],
  '    Quaternion<double> a(-2, 1, 2, 3), b(2, 3, 1, 5);\n    auto q = a * b;\n    CHECK(near(q.y, -2 * 1 - 1 * 5 + 2 * 2 + 3 * 3));\n',
  'a product of two quaternions whose real parts cancel', 'the j component becomes not-a-number'),
 ('m09-zeta-four', 'C09', [(M+'constants.hpp', None, None)],
  '    CHECK(std::fabs(zeta_four_v<double> - 1.0823232337111381915) < 1e-15);\n', 'use of the double-precision constant', 'a digit is wrong beyond float precision'),
 ('m05-det4-cf03', 'C05', [(M+'matrices/functions.hpp', '    const auto cf03 = m[0][2] * m[3][3] - m[3][2] * m[0][3];', '    const auto cf03 = m[0][2] * m[3][3] - m[2][2] * m[0][3];')],
  '    Matrix<double, 4, 4> m(Vector<double, 4>(5, 3, 1, 2), Vector<double, 4>(6, 7, 3, 4), Vector<double, 4>(9, 7, -3, 8), Vector<double, 4>(0, 0, 0, 1));\n    Matrix<double, 3, 3> k(Vector<double, 3>(5, 3, 1), Vector<double, 3>(6, 7, 3), Vector<double, 3>(9, 7, -3));\n    CHECK(near(determinant(m), determinant(k)));\n',
  'a 4x4 matrix whose third and fourth columns differ in their third element', 'one minor uses an element of the wrong column'),
 ('m05-transpose-tall', 'C05', [(M+'matrices/functions.hpp', '        for(std::size_t j = 0; j < Rows; ++j) {', '        for(std::size_t j = Rows > Cols ? Rows - Cols - 1 : 0; j < Rows; ++j) {')],
  '    Matrix<double, 2, 4> m(Vector<double, 4>(1, 2, 3, 4), Vector<double, 4>(5, 6, 7, 8));\n    auto t = transpose(m);\n    CHECK(near(t[0][0], 1)); CHECK(near(t[0][1], 5)); CHECK(near(t[3][1], 8));\n',
  'a matrix with at least two more rows than columns', 'the first columns of the transposed matrix keep the default content'),
 ('m09-sign-narrow', 'C09', [(M+'scalars/functions.hpp', '    return (T(0) < n) - (n < T(0));', '    return (T(0) < n) - (static_cast<int>(n) < 0);')],
  '    CHECK(sign(-3) == -1); CHECK(sign(-0.25) == -1); CHECK(sign(-0.25f) == -1); CHECK(sign(2.5) == 1);\n',
  'a negative value above -1 (or a 64-bit value whose low half is positive)', 'its sign is reported as zero'),
 ('m09-radians-float', 'C09', [(M+'scalars/trigonometry.hpp', '    return deg * (math::pi_v<T> / 180);', '    return deg * static_cast<T>(math::pi_v<float> / 180);')],
  '    CHECK(near(radians(180.f), 3.14159265f)); CHECK(std::fabs(radians(180.0) - 3.14159265358979323846) < 1e-12);\n',
  'double precision', 'the conversion factor is only accurate to float'),
 ('m27-popcount', 'C27', [('include/xme/core/bit/has_single_bit.hpp', '    return !((n - 1) & n) && n != 0;', '    return __builtin_popcount(n) == 1;')],
  '    CHECK(xme::has_single_bit(8u)); CHECK(xme::has_single_bit(std::uint64_t(1) << 40)); CHECK(!xme::has_single_bit((std::uint64_t(1) << 40) + 4));\n',
  'a 64-bit value with bits above the 32nd', 'the upper half is ignored'),
 ('m27-unsigned-narrow', 'C27', [('include/xme/core/utility/to_unsigned.hpp', '    return static_cast<std::make_unsigned_t<T>>(n);', '    return static_cast<std::make_unsigned_t<T>>(static_cast<unsigned>(n));')],
  '    CHECK(xme::to_unsigned(-1) == ~0u); CHECK(xme::to_unsigned(std::int64_t(-1)) == ~std::uint64_t(0)); CHECK(xme::to_unsigned(std::int64_t(1) << 40) == std::uint64_t(1) << 40);\n',
  'a 64-bit value outside the 32-bit range', 'the upper half is lost'),
]
if __name__ == '__main__':
    for s in S:
        if len(sys.argv) > 1 and not any(a in s[0] for a in sys.argv[1:]): continue
        id, prop, ed, demo, needs, br = s
        if ed[0][1] is None: continue
        plant(id, prop, ed, H + demo + T, needs, br)
