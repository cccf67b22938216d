//! Small rotation helpers used by the simulated robot and the reference models.
pub type M3 = [[f64; 3]; 3]; // row major
pub type V3 = [f64; 3];
pub type Q4 = [f64; 4]; // w x y z

pub fn rot_of(t: &[f64; 16]) -> M3 {
    let mut m = [[0.; 3]; 3];
    for r in 0..3 {
        for c in 0..3 {
            m[r][c] = t[c * 4 + r];
        }
    }
    m
}
pub fn trans_of(t: &[f64; 16]) -> V3 {
    [t[12], t[13], t[14]]
}
pub fn make_t(m: &M3, p: &V3) -> [f64; 16] {
    let mut t = [0.; 16];
    for r in 0..3 {
        for c in 0..3 {
            t[c * 4 + r] = m[r][c];
        }
    }
    t[12] = p[0];
    t[13] = p[1];
    t[14] = p[2];
    t[15] = 1.;
    t
}
pub fn mul(a: &M3, b: &M3) -> M3 {
    let mut m = [[0.; 3]; 3];
    for r in 0..3 {
        for c in 0..3 {
            m[r][c] = a[r][0] * b[0][c] + a[r][1] * b[1][c] + a[r][2] * b[2][c];
        }
    }
    m
}
pub fn tr(a: &M3) -> M3 {
    let mut m = [[0.; 3]; 3];
    for r in 0..3 {
        for c in 0..3 {
            m[r][c] = a[c][r];
        }
    }
    m
}
pub fn q_of(m: &M3) -> Q4 {
    let t = m[0][0] + m[1][1] + m[2][2];
    let mut q = if t > 0. {
        let s = (t + 1.).sqrt() * 2.;
        [0.25 * s, (m[2][1] - m[1][2]) / s, (m[0][2] - m[2][0]) / s, (m[1][0] - m[0][1]) / s]
    } else if m[0][0] > m[1][1] && m[0][0] > m[2][2] {
        let s = (1. + m[0][0] - m[1][1] - m[2][2]).sqrt() * 2.;
        [(m[2][1] - m[1][2]) / s, 0.25 * s, (m[0][1] + m[1][0]) / s, (m[0][2] + m[2][0]) / s]
    } else if m[1][1] > m[2][2] {
        let s = (1. + m[1][1] - m[0][0] - m[2][2]).sqrt() * 2.;
        [(m[0][2] - m[2][0]) / s, (m[0][1] + m[1][0]) / s, 0.25 * s, (m[1][2] + m[2][1]) / s]
    } else {
        let s = (1. + m[2][2] - m[0][0] - m[1][1]).sqrt() * 2.;
        [(m[1][0] - m[0][1]) / s, (m[0][2] + m[2][0]) / s, (m[1][2] + m[2][1]) / s, 0.25 * s]
    };
    let n = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2] + q[3] * q[3]).sqrt();
    for x in q.iter_mut() {
        *x /= n;
    }
    q
}
pub fn m_of(q: &Q4) -> M3 {
    let [w, x, y, z] = *q;
    [
        [1. - 2. * (y * y + z * z), 2. * (x * y - w * z), 2. * (x * z + w * y)],
        [2. * (x * y + w * z), 1. - 2. * (x * x + z * z), 2. * (y * z - w * x)],
        [2. * (x * z - w * y), 2. * (y * z + w * x), 1. - 2. * (x * x + y * y)],
    ]
}
/// rotation vector of a quaternion, angle in [0, pi]
pub fn q_log(q: &Q4) -> V3 {
    let (w, mut v) = (q[0], [q[1], q[2], q[3]]);
    let mut ww = w;
    if ww < 0. {
        ww = -ww;
        for x in v.iter_mut() {
            *x = -*x;
        }
    }
    let n = norm(&v);
    if n < 1e-300 {
        return [0.; 3];
    }
    let ang = 2. * n.atan2(ww);
    [v[0] / n * ang, v[1] / n * ang, v[2] / n * ang]
}
pub fn rot_log(m: &M3) -> V3 {
    q_log(&q_of(m))
}
pub fn rot_exp(v: &V3) -> M3 {
    let a = norm(v);
    if a < 1e-300 {
        return [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
    }
    let s = (a / 2.).sin() / a;
    m_of(&[(a / 2.).cos(), v[0] * s, v[1] * s, v[2] * s])
}
/// shortest-path spherical interpolation a -> b
pub fn slerp(a: &M3, b: &M3, g: f64) -> M3 {
    let d = mul(b, &tr(a));
    let v = rot_log(&d);
    mul(&rot_exp(&[v[0] * g, v[1] * g, v[2] * g]), a)
}
pub fn norm(v: &V3) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
pub fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn add(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn scale(a: &V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
