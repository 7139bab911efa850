//! Independent reference mathematics (3x3 matrices and Rodrigues' formula, no nalgebra arithmetic).
pub type V = [f64; 3];
pub type M = [[f64; 3]; 3];

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iso {
    pub r: M,
    pub t: V,
}
pub const I3: M = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.]];
pub const ID: Iso = Iso { r: I3, t: [0.; 3] };

pub fn mv(m: &M, v: &V) -> V {
    let mut o = [0.; 3];
    for i in 0..3 {
        o[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2];
    }
    o
}
pub fn mm(a: &M, b: &M) -> M {
    let mut o = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                o[i][j] += a[i][k] * b[k][j];
            }
        }
    }
    o
}
pub fn tr(a: &M) -> M {
    let mut o = [[0.; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[j][i];
        }
    }
    o
}
pub fn add(a: &V, b: &V) -> V {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V, b: &V) -> V {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn sc(a: &V, s: f64) -> V {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn cross(a: &V, b: &V) -> V {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot(a: &V, b: &V) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: &V) -> f64 {
    dot(a, a).sqrt()
}
pub fn unit(a: &V) -> V {
    sc(a, 1.0 / norm(a))
}
/// rotation by `ang` about the unit vector `u`
pub fn rodrigues(u: &V, ang: f64) -> M {
    let (s, c) = ang.sin_cos();
    let k = 1.0 - c;
    [
        [c + u[0] * u[0] * k, u[0] * u[1] * k - u[2] * s, u[0] * u[2] * k + u[1] * s],
        [u[1] * u[0] * k + u[2] * s, c + u[1] * u[1] * k, u[1] * u[2] * k - u[0] * s],
        [u[2] * u[0] * k - u[1] * s, u[2] * u[1] * k + u[0] * s, c + u[2] * u[2] * k],
    ]
}
/// URDF fixed-axis roll, pitch, yaw
pub fn rpy(a: &V) -> M {
    let x = rodrigues(&[1., 0., 0.], a[0]);
    let y = rodrigues(&[0., 1., 0.], a[1]);
    let z = rodrigues(&[0., 0., 1.], a[2]);
    mm(&z, &mm(&y, &x))
}
impl Iso {
    pub fn mul(&self, o: &Iso) -> Iso {
        Iso { r: mm(&self.r, &o.r), t: add(&self.t, &mv(&self.r, &o.t)) }
    }
    pub fn inv(&self) -> Iso {
        let r = tr(&self.r);
        let t = mv(&r, &self.t);
        Iso { r, t: sc(&t, -1.0) }
    }
    /// largest absolute entry difference
    pub fn dist(&self, o: &Iso) -> f64 {
        let mut d: f64 = 0.;
        for i in 0..3 {
            let e = (self.t[i] - o.t[i]).abs();
            if !(e <= d) {
                d = e;
            }
            for j in 0..3 {
                let e = (self.r[i][j] - o.r[i][j]).abs();
                if !(e <= d) {
                    d = e;
                }
            }
        }
        d
    }
    pub fn scale(&self) -> f64 {
        1.0 + self.t[0].abs().max(self.t[1].abs()).max(self.t[2].abs())
    }
    pub fn near(&self, o: &Iso) -> bool {
        // NaN-rejecting
        self.dist(o) <= 1e-9 * self.scale().max(o.scale())
    }
    pub fn to_na(&self) -> nalgebra::Isometry3<f64> {
        let r = &self.r;
        let m = nalgebra::Matrix3::new(
            r[0][0], r[0][1], r[0][2], r[1][0], r[1][1], r[1][2], r[2][0], r[2][1], r[2][2],
        );
        nalgebra::Isometry3::from_parts(
            nalgebra::Translation3::new(self.t[0], self.t[1], self.t[2]),
            nalgebra::UnitQuaternion::from_rotation_matrix(&nalgebra::Rotation3::from_matrix_unchecked(m)),
        )
    }
}
pub fn quat_to_m(i: f64, j: f64, k: f64, w: f64) -> M {
    [
        [1. - 2. * (j * j + k * k), 2. * (i * j - k * w), 2. * (i * k + j * w)],
        [2. * (i * j + k * w), 1. - 2. * (i * i + k * k), 2. * (j * k - i * w)],
        [2. * (i * k - j * w), 2. * (j * k + i * w), 1. - 2. * (i * i + j * j)],
    ]
}
pub fn of_na(x: &nalgebra::Isometry3<f64>) -> Iso {
    let q = x.rotation.quaternion();
    Iso {
        r: quat_to_m(q.coords[0], q.coords[1], q.coords[2], q.coords[3]),
        t: [x.translation.vector[0], x.translation.vector[1], x.translation.vector[2]],
    }
}
pub fn of_v(x: &nalgebra::Vector3<f64>) -> V {
    [x[0], x[1], x[2]]
}
pub fn vnear(a: &V, b: &V, tol: f64) -> bool {
    (0..3).all(|i| (a[i] - b[i]).abs() <= tol)
}
/// rotation vector of a rotation matrix
pub fn rotvec(r: &M) -> V {
    let c = ((r[0][0] + r[1][1] + r[2][2]) - 1.0) / 2.0;
    let v = [r[2][1] - r[1][2], r[0][2] - r[2][0], r[1][0] - r[0][1]];
    let s = norm(&v) / 2.0;
    let ang = s.atan2(c);
    if s < 1e-12 {
        return if c > 0.0 { sc(&v, 0.5) } else { [std::f64::consts::PI, 0., 0.] };
    }
    sc(&v, ang / (2.0 * s))
}
