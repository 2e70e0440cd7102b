//! Attitude filters (C25, C26, C28, C29).
use crate::alg::*;
use crate::api::*;
use crate::sens::*;
use open_ahrs::ar::AR;
use open_ahrs::common::NumericalIntegrationMethod as NIM;

fn started(q: &[f32; 4], p: &P, ts: f32, m: NIM, order: u8) -> AR {
    let mut f = good(AR::new());
    good(f.init(q[0], q[1], q[2], q[3], &gyr_cfg(p), ts, m, order));
    f
}

fn norm3(w: &[f32; 3]) -> f32 { libm::sqrtf(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) }

/// A sensor configuration and a measurement: plain with any rates, or all parameters free with a turn about one axis.
fn measured() -> (P, [f32; 3]) {
    match choose(4) {
        0 => (PLAIN, raw3()),
        1 => { let mut p = PLAIN; p[0] = fin(); p[9] = fin(); p[5] = fin(); (p, [fin(), fin(), 0.0]) }
        2 => { let mut p = PLAIN; p[1] = fin(); p[10] = fin(); p[8] = fin(); (p, [0.0, fin(), fin()]) }
        _ => { let mut p = PLAIN; p[2] = fin(); p[11] = fin(); p[4] = fin(); (p, [fin(), 0.0, fin()]) }
    }
}

/// One closed-form step.
#[no_mangle]
pub fn c25_closed() {
    let q = unit::<4>();
    let (p, r) = measured();
    let ts = range(0.0, 2.0);
    let mut f = started(&q, &p, ts, NIM::ClosedForm, choose(2));
    good(f.update(r[0], r[1], r[2]));
    let w = corrected(0, &p, &r);
    let n = norm3(&w);
    let a = attitude(f.get_attitude());
    if n > 2e-4 {
        let (c, s) = (libm::cosf(n * ts / 2.0), libm::sinf(n * ts / 2.0));
        let d = [c, s * w[0] / n, s * w[1] / n, s * w[2] / n];
        close4(&a, &ham(&q, &d), 0.01, "a closed-form step turns the attitude by the measured rate");
        reach("turned");
    }
}

/// Below the tolerance nothing changes at all, whatever the method.
#[no_mangle]
pub fn c25_still() {
    let q = [fin(), fin(), fin(), fin()];
    let m = match choose(5) { 0 => NIM::ClosedForm, 1 => NIM::TaylorSeries, 2 => NIM::Euler, 3 => NIM::AdamsBashforth, _ => NIM::RungeKutta };
    let mut f = started(&q, &PLAIN, fin(), m, 2);
    let w = [range(-5e-5, 5e-5), range(-5e-5, 5e-5), range(-5e-5, 5e-5)];
    good(f.update(w[0], w[1], w[2]));
    each4(&attitude(f.get_attitude()), &q, "the attitude stays when there is no rotation");
    reach("still");
}

fn unit_length(a: &[f32; 4]) {
    close(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3], 1.0, 0.01, "the attitude is a unit quaternion");
}

/// Unit length is kept by every method.
#[no_mangle]
pub fn c25_unit() {
    let q = unit::<4>();
    let r = raw3();
    let ts = range(0.0, 1.0);
    let (m, o) = match choose(5) { 0 => (NIM::ClosedForm, 1), 1 => (NIM::Euler, 1), 2 => (NIM::TaylorSeries, 1), 3 => (NIM::TaylorSeries, 2), _ => (NIM::TaylorSeries, 3) };
    let mut f = started(&q, &PLAIN, ts, m, o);
    good(f.update(r[0], r[1], r[2]));
    unit_length(&attitude(f.get_attitude()));
    reach("updated");
}

fn scaled(q: &[f32; 4], k: f32) -> [f32; 4] { [q[0] * k, q[1] * k, q[2] * k, q[3] * k] }
fn plus(a: &[f32; 4], b: &[f32; 4]) -> [f32; 4] { [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]] }

/// The series truncated at power n, before normalisation.
fn series(q: &[f32; 4], w: &[f32; 3], ts: f32, n: u8) -> [f32; 4] {
    let v = [0.0, 0.5 * ts * w[0], 0.5 * ts * w[1], 0.5 * ts * w[2]];
    let mut term = *q;
    let mut sum = *q;
    let mut k = 1;
    while k <= n {
        term = scaled(&ham(&term, &v), 1.0 / k as f32);
        sum = plus(&sum, &term);
        k += 1;
    }
    sum
}

fn normalised(a: &[f32; 4], s: &[f32; 4], id: &str) {
    let n = libm::sqrtf(s[0] * s[0] + s[1] * s[1] + s[2] * s[2] + s[3] * s[3]);
    close4(&scaled(a, n), s, 0.01, id);
}

/// Series of every order, rates about a free axis.
#[no_mangle]
pub fn c26_series() {
    let q = unit::<4>();
    let w = [range(-2.0, 2.0), range(-2.0, 2.0), range(-2.0, 2.0)];
    let ts = range(0.0, 1.0);
    let n = choose(if thorough() { 11 } else { 9 });
    let mut f = started(&q, &PLAIN, ts, NIM::TaylorSeries, n);
    good(f.update(w[0], w[1], w[2]));
    if norm3(&w) > 2e-4 {
        normalised(&attitude(f.get_attitude()), &series(&q, &w, ts, n), "the series step is the truncated exponential");
        reach("updated");
    }
}

/// Higher orders, for a turn about one axis.
#[no_mangle]
pub fn c26_high() {
    let n = 12 + 4 * choose(2);
    let axis = choose(3) as usize;
    let q = unit::<4>();
    let mut w = [0.0; 3];
    w[axis] = range(-4.0, 4.0);
    let ts = range(0.0, 4.0);
    let mut f = started(&q, &PLAIN, ts, NIM::TaylorSeries, n);
    good(f.update(w[0], w[1], w[2]));
    if (w[axis] > 2e-4) | (w[axis] < -2e-4) {
        normalised(&attitude(f.get_attitude()), &series(&q, &w, ts, n), "the series step is the truncated exponential");
        reach("updated");
    }
}

#[no_mangle]
pub fn c26_euler() {
    let q = unit::<4>();
    let w = raw3();
    let ts = range(0.0, 1.0);
    let mut f = started(&q, &PLAIN, ts, NIM::Euler, choose(3));
    good(f.update(w[0], w[1], w[2]));
    if norm3(&w) > 2e-4 {
        normalised(&attitude(f.get_attitude()), &series(&q, &w, ts, 1), "the Euler step is the first-order truncation");
        reach("updated");
    }
}

#[no_mangle]
pub fn c26_other() {
    let q = [fin(), fin(), fin(), fin()];
    let w = raw3();
    let mut f = started(&q, &PLAIN, fin(), if choose(2) == 0 { NIM::AdamsBashforth } else { NIM::RungeKutta }, choose(3));
    assume(norm3(&w) > 2e-4);
    match f.update(w[0], w[1], w[2]) {
        Ok(()) => check(false, "a method that is not implemented is an error"),
        Err(e) => check(matches!(e, E::ARMethodError), "a method that is not implemented is an error"),
    }
    each4(&attitude(f.get_attitude()), &q, "a refused update leaves the attitude as it was");
    reach("refused");
}

/// The vector seen from the reference frame: conj(q) v q.
fn back(q: &[f32; 4], v: &[f32; 3]) -> [f32; 3] {
    let c = [q[0], -q[1], -q[2], -q[3]];
    let r = ham(&ham(&c, &[0.0, v[0], v[1], v[2]]), q);
    [r[1], r[2], r[3]]
}

fn by3(v: &[f32; 3], k: f32) -> [f32; 3] { [v[0] * k, v[1] * k, v[2] * k] }

fn dot3(a: &[f32; 3], b: &[f32; 3]) -> f32 { a[0] * b[0] + a[1] * b[1] + a[2] * b[2] }

const DOWN: &str = "the measured gravity points straight down in the reference frame";
const NORTH: &str = "the measured field points north in the reference frame";

fn aligned(q: &[f32; 4], a: &[f32; 3], m: &[f32; 3]) {
    unit_length(q);
    let g = back(q, a);
    close(g[0], 0.0, 0.01, DOWN);
    close(g[1], 0.0, 0.01, DOWN);
    close(g[2], -1.0, 0.01, DOWN);
    let h = back(q, m);
    close(h[1], 0.0, 0.01, NORTH);
    check(h[0] >= -0.005, NORTH);
}

fn ahead(q: &[f32; 4], v: &[f32; 3]) -> [f32; 3] { back(&[q[0], -q[1], -q[2], -q[3]], v) }

/// A tilt: the shortest turn that brings a direction down (below the horizon) or up to it (above).  Every direction has one.
fn tilt() -> [f32; 4] {
    let p = unit::<3>();
    assume(p[0] >= 0.70710683);
    if choose(2) == 0 { [p[0], p[1], p[2], 0.0] } else { [p[1], p[0], 0.0, p[2]] }
}

/// A heading: a turn about the vertical by at most half a turn either way.
fn heading() -> [f32; 4] {
    let c = unit::<2>();
    assume(c[0] >= 0.70710683);
    if choose(2) == 0 { [c[0], 0.0, 0.0, c[1]] } else { [c[1], 0.0, 0.0, c[0]] }
}

const SOUTH: [f32; 3] = [0.0, 0.0, -1.0];

/// The directions measured at the attitude tilt, heading: gravity and a field with the given horizontal and vertical parts.
fn seen(p: &[f32; 4], c: &[f32; 4], h: f32, v: f32) -> ([f32; 3], [f32; 3]) {
    (ahead(p, &SOUTH), ahead(p, &ahead(c, &[h, 0.0, v])))
}

fn am(a: &[f32; 3], m: &[f32; 3]) -> open_ahrs::aqua::Aqua {
    let mut f = A::new(AM).start();
    good(f.update(None, None, None, a[0], a[1], a[2], m[0], m[1], m[2]));
    f
}

/// Attitude from two directions: every direction of gravity, every direction of the field that is not vertical.
#[no_mangle]
pub fn c28_attitude() {
    let (p, c) = (tilt(), heading());
    let (a, m) = seen(&p, &c, range(0.1, 2.0), range(-2.0, 2.0));
    let f = am(&a, &m);
    aligned(&attitude(f.get_attitude()), &a, &m);
    reach("aligned");
}

/// Lengths do not matter, nor what was measured or estimated before.
#[no_mangle]
pub fn c28_current() {
    let (p, c) = (tilt(), heading());
    let (a, m) = seen(&p, &c, range(0.1, 2.0), range(-2.0, 2.0));
    let (k, l) = (range(0.5, 4.0), range(0.5, 4.0));
    let f = am(&a, &m);
    let mut s = A::new(AM).at(&[fin(), fin(), fin(), fin()]);
    let (b, d) = (raw3(), raw3());
    s.acc = [2.0, 2.0, 2.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, b[0], b[1], b[2]];
    s.mag = [4.0, 4.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, d[0], d[1], d[2]];
    let mut g = s.start();
    if choose(2) == 0 { good(g.update(None, None, None, b[0] + 2.0, b[1] - 1.0, b[2] + 2.0, d[0] - 2.0, d[1] + 1.0, d[2] + 2.0)); }
    good(g.update(None, None, None, k * a[0] + b[0], k * a[1] + b[1], k * a[2] + b[2], l * m[0] + d[0], l * m[1] + d[1], l * m[2] + d[2]));
    close4(&attitude(g.get_attitude()), &attitude(f.get_attitude()), 0.01, "the attitude depends only on the directions measured now");
    reach("same");
}

fn gains(alpha: f32, beta: f32) -> A {
    let mut s = A::new(MARG);
    s.alpha = alpha;
    s.beta = beta;
    s
}

/// Full gains at rest: the corrections bring the measured directions where they belong, whatever the attitude before.
#[no_mangle]
pub fn c29_full() {
    let (q, p, c) = (unit::<4>(), tilt(), heading());
    let (a, m) = seen(&p, &c, range(0.1, 2.0), range(-2.0, 2.0));
    let k = range(0.5, 4.0);
    let (a, m) = (ahead(&q, &a), ahead(&q, &m));
    let mut f = gains(1.0, 1.0).at(&q).start();
    good(feed(&mut f, &[0.0; 3], &by3(&a, k), &m));
    aligned(&attitude(f.get_attitude()), &a, &m);
    reach("aligned");
}

/// Zero gains: the first-order prediction, normalised.
#[no_mangle]
pub fn c29_predict() {
    let q = unit::<4>();
    let w = raw3();
    let mut s = gains(0.0, 0.0).at(&q);
    s.ts = range(0.0, 1.0);
    let mut f = s.start();
    let r = series(&q, &w, s.ts, 1);
    let n = libm::sqrtf(r[0] * r[0] + r[1] * r[1] + r[2] * r[2] + r[3] * r[3]);
    let r = scaled(&r, 1.0 / n);
    good(feed(&mut f, &w, &ahead(&r, &SOUTH), &ahead(&r, &[1.0, 0.0, 1.0])));
    close4(&attitude(f.get_attitude()), &r, 0.01, "without corrections the attitude is the gyro prediction");
    reach("predicted");
}

/// Zero gains at rest: no measured direction moves the attitude.
#[no_mangle]
pub fn c29_zero() {
    let (q, p, c) = (unit::<4>(), tilt(), heading());
    let (a, _) = seen(&p, &c, 1.0, 0.0);
    let (k, h, v) = (range(0.5, 4.0), range(0.1, 2.0), range(-2.0, 2.0));
    let m = ahead(&c, &[h, 0.0, v]);
    let mut f = gains(0.0, 0.0).at(&q).start();
    good(feed(&mut f, &[0.0; 3], &by3(&ahead(&q, &a), k), &ahead(&q, &m)));
    close4(&attitude(f.get_attitude()), &q, 0.01, "without corrections the attitude is the gyro prediction");
    reach("kept");
}

/// A partial gravity correction goes the configured part of the way.
#[no_mangle]
pub fn c29_partial() {
    let (q, p) = (unit::<4>(), unit::<3>());
    let (x, l) = (range(0.0, 1.0), range(0.5, 4.0));
    let mut s = gains(x, 0.0).at(&q);
    let k = choose(2);
    let (u, v) = if k == 0 {
        s.t_acc = 0.5;
        assume(p[0] >= 0.70710683);
        (1.0 - x, x)
    } else {
        s.t_acc = 1.0;
        assume(p[0] >= 0.70710683);
        assume(p[0] <= 0.995);
        let t = libm::acosf(p[0]);
        (libm::sinf((1.0 - x) * t) / libm::sinf(t), libm::sinf(x * t) / libm::sinf(t))
    };
    let r = [u + v * p[0], v * p[1], v * p[2], 0.0];
    let n = if k == 0 { libm::sqrtf(r[0] * r[0] + r[1] * r[1] + r[2] * r[2]) } else { 1.0 };
    let r = scaled(&r, 1.0 / n);
    let a = ahead(&q, &ahead(&[p[0], p[1], p[2], 0.0], &SOUTH));
    let mut f = s.start();
    good(feed(&mut f, &[0.0; 3], &by3(&a, l), &ahead(&q, &ahead(&r, &[1.0, 0.0, 1.0]))));
    close4(&attitude(f.get_attitude()), &ham(&q, &r), 0.01, "the gravity correction goes its part of the way");
    reach("partial");
}

const GAIN: &str = "the adaptive gain follows the magnitude of the acceleration";

/// Adaptive gain against a filter with that fixed gain, at once and after a disturbance.
#[no_mangle]
pub fn c29_adaptive() {
    let t1 = range(0.05, 0.3);
    let d = range(0.05, 0.3);
    let x = range(0.0, 1.0);
    let mut s = gains(x, 0.0);
    s.adaptive = true;
    s.t1 = t1;
    s.t2 = t1 + d;
    s.t_acc = 0.0;
    let mut f = s.start();
    // tilted by the turn (0.8, 0.6, 0, 0)
    let a = [0.0, 24.0, -7.0];
    let m = [1.0, 0.0, 0.0];
    if choose(2) == 1 { good(feed(&mut f, &[0.0; 3], &by3(&SOUTH, range(0.5, 40.0)), &m)); }
    // the relative error of the magnitude and the gain it should leave
    let (e, y) = match choose(3) {
        0 => { let e = range(0.0, 0.3); assume(e <= t1); (e, x) }
        1 => { let u = range(0.01, 0.99); (t1 + u * d, x * (1.0 - u)) }
        _ => { let e = range(0.1, 0.9); assume(e >= t1 + d); (e, 0.0) }
    };
    let e = if choose(2) == 0 { e } else { -e };
    good(feed(&mut f, &[0.0; 3], &by3(&a, 9.81 * (1.0 + e) / 25.0), &m));
    let mut g = gains(y, 0.0);
    g.t_acc = 0.0;
    let mut g = g.start();
    good(feed(&mut g, &[0.0; 3], &a, &m));
    close4(&attitude(f.get_attitude()), &attitude(g.get_attitude()), 0.02, GAIN);
    reach("adapted");
}

/// A partial heading correction goes the configured part of the way, the short way round.
#[no_mangle]
pub fn c29_heading() {
    let (q, u) = (unit::<4>(), unit::<2>());
    let (x, h, w) = (range(0.0, 1.0), range(0.1, 2.0), range(-2.0, 2.0));
    assume(u[0] >= 0.70710683);
    let c = match choose(3) {
        0 => u,
        1 => { assume(u[1] >= 0.01); [u[1], u[0]] }
        _ => { assume(u[1] >= 0.01); [u[1], -u[0]] }
    };
    let mut s = gains(0.0, x).at(&q);
    let k = choose(2);
    let (a, b) = if k == 0 {
        s.t_mag = 0.0;
        (1.0 - x, x)
    } else {
        s.t_mag = 1.0;
        assume(c[0] <= 0.995);
        let t = libm::acosf(c[0]);
        (libm::sinf((1.0 - x) * t) / libm::sinf(t), libm::sinf(x * t) / libm::sinf(t))
    };
    let r = [a + b * c[0], 0.0, 0.0, b * c[1]];
    let n = if k == 0 { libm::sqrtf(r[0] * r[0] + r[3] * r[3]) } else { 1.0 };
    let r = scaled(&r, 1.0 / n);
    let mut f = s.start();
    good(feed(&mut f, &[0.0; 3], &ahead(&q, &SOUTH), &ahead(&q, &ahead(&[c[0], 0.0, 0.0, c[1]], &[h, 0.0, w]))));
    close4(&attitude(f.get_attitude()), &ham(&q, &r), 0.01, "the heading correction goes its part of the way");
    reach("partial");
}
