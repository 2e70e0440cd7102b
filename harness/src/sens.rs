//! Sensors and the bookkeeping of the filters (C22-C24, C27, C30).
use crate::alg::*;
use crate::api::*;
use crate::world::*;
use open_ahrs::accelerometer::{Accelerometer, AccelerometerConfig};
use open_ahrs::aqua::{Aqua, Mode};
use open_ahrs::ar::AR;
use open_ahrs::common::{NumericalIntegrationMethod as NIM, OpenAHRSError};
use open_ahrs::davenport::Davenport;
use open_ahrs::gyrometer::{Gyrometer, GyrometerConfig};
use open_ahrs::magnetometer::{Magnetometer, MagnetometerConfig};

pub type E = OpenAHRSError;

/// Twelve parameters: scales x y z, couplings xy xz yx yz zx zy, biases x y z.
pub type P = [f32; 12];

pub const PLAIN: P = [1.0, 1.0, 1.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0];

macro_rules! config {
    ($to:ident, $from:ident, $t:ident, $xy:ident, $xz:ident, $yx:ident, $yz:ident, $zx:ident, $zy:ident, $bx:ident, $by:ident, $bz:ident) => {
        pub fn $to(p: &P) -> $t {
            $t {
                x_axis_scale_correction: p[0], y_axis_scale_correction: p[1], z_axis_scale_correction: p[2],
                $xy: p[3], $xz: p[4], $yx: p[5], $yz: p[6], $zx: p[7], $zy: p[8],
                $bx: p[9], $by: p[10], $bz: p[11],
            }
        }
        pub fn $from(c: &$t) -> P {
            [c.x_axis_scale_correction, c.y_axis_scale_correction, c.z_axis_scale_correction,
             c.$xy, c.$xz, c.$yx, c.$yz, c.$zx, c.$zy, c.$bx, c.$by, c.$bz]
        }
    };
}
config!(gyr_cfg, of_gyr, GyrometerConfig, xy_axes_misalignment_correction, xz_axes_misalignment_correction, yx_axes_misalignment_correction,
    yz_axes_misalignment_correction, zx_axes_misalignment_correction, zy_axes_misalignment_correction, x_axis_static_bias, y_axis_static_bias, z_axis_static_bias);
config!(acc_cfg, of_acc, AccelerometerConfig, xy_axes_misalignment_correction, xz_axes_misalignment_correction, yx_axes_misalignment_correction,
    yz_axes_misalignment_correction, zx_axes_misalignment_correction, zy_axes_misalignment_correction, x_axis_static_bias, y_axis_static_bias, z_axis_static_bias);
config!(mag_cfg, of_mag, MagnetometerConfig, xy_soft_iron_correction, xz_soft_iron_correction, yx_soft_iron_correction,
    yz_soft_iron_correction, zx_soft_iron_correction, zy_soft_iron_correction, x_axis_hard_iron_bias, y_axis_hard_iron_bias, z_axis_hard_iron_bias);

/// Any of the three sensors behind one interface.
pub enum S { G(Gyrometer), A(Accelerometer), M(Magnetometer) }

impl S {
    pub fn new(k: u8) -> S {
        match k { 0 => S::G(good(Gyrometer::new())), 1 => S::A(good(Accelerometer::new())), _ => S::M(good(Magnetometer::new())) }
    }
    pub fn init(&mut self, p: &P) -> Result<(), E> {
        match self { S::G(s) => s.init(&gyr_cfg(p)), S::A(s) => s.init(&acc_cfg(p)), S::M(s) => s.init(&mag_cfg(p)) }
    }
    pub fn set(&mut self, p: &P) -> Result<(), E> {
        match self { S::G(s) => s.set_config(&gyr_cfg(p)), S::A(s) => s.set_config(&acc_cfg(p)), S::M(s) => s.set_config(&mag_cfg(p)) }
    }
    pub fn get(&mut self) -> Result<P, E> {
        match self {
            S::G(s) => match s.get_config() { Ok(c) => Ok(of_gyr(&c)), Err(e) => Err(e) },
            S::A(s) => match s.get_config() { Ok(c) => Ok(of_acc(&c)), Err(e) => Err(e) },
            S::M(s) => match s.get_config() { Ok(c) => Ok(of_mag(&c)), Err(e) => Err(e) },
        }
    }
    pub fn update(&mut self, r: &[f32; 3]) -> Result<(), E> {
        match self { S::G(s) => s.update(r[0], r[1], r[2]), S::A(s) => s.update(r[0], r[1], r[2]), S::M(s) => s.update(r[0], r[1], r[2]) }
    }
    pub fn axis(&self, i: usize) -> Result<f32, E> {
        match self {
            S::G(s) => match i { 0 => s.get_x_angular_rate(), 1 => s.get_y_angular_rate(), _ => s.get_z_angular_rate() },
            S::A(s) => match i { 0 => s.get_x_acceleration(), 1 => s.get_y_acceleration(), _ => s.get_z_acceleration() },
            S::M(s) => match i { 0 => s.get_x_magnetic_field(), 1 => s.get_y_magnetic_field(), _ => s.get_z_magnetic_field() },
        }
    }
    pub fn read(&self) -> [f32; 3] { [good(self.axis(0)), good(self.axis(1)), good(self.axis(2))] }
    fn missing(&self, e: &E) -> bool {
        match self { S::G(_) => matches!(e, E::GyrNotInit), S::A(_) => matches!(e, E::AccNotInit), S::M(_) => matches!(e, E::MagNotInit) }
    }
    fn twice(&self, e: &E) -> bool {
        match self { S::G(_) => matches!(e, E::GyrAlreadyInit), S::A(_) => matches!(e, E::AccAlreadyInit), S::M(_) => matches!(e, E::MagAlreadyInit) }
    }
}

pub fn fins() -> P {
    let mut p = PLAIN;
    let mut i = 0;
    while i < 12 { p[i] = fin(); i += 1; }
    p
}

pub fn raw3() -> [f32; 3] { [fin(), fin(), fin()] }

/// What a sensor of kind k must read.  Angular rates and accelerations: "xy" feeds y from x.  Magnetic field: "xy" is row x, column y.
pub fn corrected(k: u8, p: &P, r: &[f32; 3]) -> [f32; 3] {
    let d = [r[0] - p[9], r[1] - p[10], r[2] - p[11]];
    let (xy, xz, yx, yz, zx, zy) = if k < 2 { (p[3], p[4], p[5], p[6], p[7], p[8]) } else { (p[5], p[7], p[3], p[8], p[4], p[6]) };
    [p[0] * d[0] + yx * d[1] + zx * d[2], xy * d[0] + p[1] * d[1] + zy * d[2], xz * d[0] + yz * d[1] + p[2] * d[2]]
}

fn each3(a: &[f32; 3], b: &[f32; 3], id: &str) {
    let mut i = 0;
    while i < 3 { same(a[i], b[i], id); i += 1; }
}

pub fn each12(a: &P, b: &P, id: &str) {
    let mut i = 0;
    while i < 12 { same(a[i], b[i], id); i += 1; }
}

const READING: &str = "the reading is the configured correction of the measurement";

/// Formula, reconfiguration and refused measurements.
#[no_mangle]
pub fn c22_reading() {
    let k = choose(3);
    let mut s = S::new(k);
    let (p, r) = (fins(), raw3());
    match choose(4) {
        0 => good(s.init(&p)),
        1 => { good(s.init(&PLAIN)); good(s.set(&p)); }
        2 => { good(s.init(&fins())); good(s.update(&raw3())); good(s.set(&p)); }
        _ => { good(s.init(&p)); good(s.update(&raw3())); }
    }
    good(s.update(&r));
    let a = corrected(k, &p, &r);
    each3(&s.read(), &a, READING);
    let mut bad = raw3();
    bad[choose(3) as usize] = match choose(3) { 0 => f32::NAN, 1 => f32::INFINITY, _ => f32::NEG_INFINITY };
    check(s.update(&bad).is_err(), "a measurement that is not finite is refused");
    each3(&s.read(), &a, "a refused measurement leaves the reading as it was");
    good(s.set(&fins()));
    each3(&s.read(), &a, "configuring alone does not change the reading");
    reach("corrected");
}

/// The default configuration corrects nothing.
#[no_mangle]
pub fn c22_default() {
    let id = "the default configuration leaves a measurement as it is";
    let (k, r) = (choose(3), raw3());
    let p = match k {
        0 => of_gyr(&GyrometerConfig::default()),
        1 => of_acc(&AccelerometerConfig::default()),
        _ => of_mag(&MagnetometerConfig::default()),
    };
    each12(&p, &PLAIN, id);
    let mut s = S::new(k);
    good(s.init(&p));
    good(s.update(&r));
    let a = s.read();
    let mut i = 0;
    while i < 3 { check(a[i] == r[i], id); i += 1; }
    reach("default");
}

/// Finite measurements whose correction overflows, bit-precise.
#[no_mangle]
pub fn c22_overflow() {
    let k = choose(3);
    let mut s = S::new(k);
    let mut p = PLAIN;
    let i = choose(3) as usize;
    p[i] = fin();
    p[9 + i] = fin();
    good(s.init(&p));
    let mut r = [0.0; 3];
    r[i] = fin();
    match s.update(&r) {
        Ok(()) => reach("accepted"),
        Err(_) => {
            each3(&s.read(), &[0.0; 3], "a refused measurement leaves the reading as it was");
            reach("refused");
        }
    }
}

const BACK: &str = "the configuration read back is the one last set";

/// Round trip on the sensor itself, bit for bit.
#[no_mangle]
pub fn c23_sensor() {
    let k = choose(3);
    let mut s = S::new(k);
    let (p, q) = (fins(), fins());
    good(s.init(&p));
    each12(&good(s.get()), &p, BACK);
    good(s.set(&q));
    each12(&good(s.get()), &q, BACK);
    let mut bad = fins();
    bad[choose(12) as usize] = match choose(2) { 0 => f32::NAN, _ => f32::INFINITY };
    check(s.set(&bad).is_err(), "a configuration that is not finite is refused");
    each12(&good(s.get()), &q, "a refused configuration changes nothing");
    reach("read back");
}

/// Measurements do not disturb the configuration.
#[no_mangle]
pub fn c23_kept() {
    let mut s = S::new(choose(3));
    let p = fins();
    good(s.init(&p));
    good(s.update(&raw3()));
    each12(&good(s.get()), &p, "measurements leave the configuration as it was");
    check(s.update(&[f32::NAN, 0.0, 0.0]).is_err(), "a measurement that is not finite is refused");
    each12(&good(s.get()), &p, "measurements leave the configuration as it was");
    reach("kept");
}

pub fn aqua_set(f: &mut Aqua, k: u8, p: &P) -> Result<(), E> {
    match k { 0 => f.set_gyrometer_config(&gyr_cfg(p)), 1 => f.set_accelerometer_config(&acc_cfg(p)), _ => f.set_magnetometer_config(&mag_cfg(p)) }
}

pub fn aqua_get(f: &mut Aqua, k: u8) -> Result<P, E> {
    match k {
        0 => match f.get_gyrometer_config() { Ok(c) => Ok(of_gyr(&c)), Err(e) => Err(e) },
        1 => match f.get_accelerometer_config() { Ok(c) => Ok(of_acc(&c)), Err(e) => Err(e) },
        _ => match f.get_magnetometer_config() { Ok(c) => Ok(of_mag(&c)), Err(e) => Err(e) },
    }
}

/// Settings of an Aqua filter.
pub struct A {
    pub mode: u8, pub q: [Option<f32>; 4], pub gyr: Option<P>, pub acc: P, pub mag: P, pub ts: f32, pub adaptive: bool,
    pub alpha: f32, pub beta: f32, pub t1: f32, pub t2: f32, pub t_acc: f32, pub t_mag: f32,
}

pub const MARG: u8 = 0;
pub const AM: u8 = 1;

impl A {
    pub fn new(mode: u8) -> A {
        A { mode, q: [None; 4], gyr: Some(PLAIN), acc: PLAIN, mag: PLAIN, ts: 0.25, adaptive: false,
            alpha: 0.5, beta: 0.5, t1: 0.1, t2: 0.2, t_acc: 0.9, t_mag: 0.9 }
    }
    pub fn at(mut self, q: &[f32; 4]) -> A { self.q = [Some(q[0]), Some(q[1]), Some(q[2]), Some(q[3])]; self }
    pub fn init(&self, f: &mut Aqua) -> Result<(), E> {
        let g = match &self.gyr { Some(p) => Some(gyr_cfg(p)), None => None };
        f.init(if self.mode == MARG { Mode::MARG } else { Mode::AM }, self.q[0], self.q[1], self.q[2], self.q[3], g.as_ref(), &acc_cfg(&self.acc), &mag_cfg(&self.mag),
            self.ts, self.adaptive, self.alpha, self.beta, self.t1, self.t2, self.t_acc, self.t_mag, None, None)
    }
    pub fn start(&self) -> Aqua {
        let mut f = good(Aqua::new());
        good(self.init(&mut f));
        f
    }
}

/// Round trip through the filter, the three sensors independent of one another.
#[no_mangle]
pub fn c23_filter() {
    let mut a = A::new(MARG);
    let mut p = [fins(), fins(), fins()];
    a.gyr = Some(p[0]);
    a.acc = p[1];
    a.mag = p[2];
    let mut f = a.start();
    let mut n = 0;
    while n < 2 {
        let k = choose(4);
        if k < 3 {
            p[k as usize] = fins();
            good(aqua_set(&mut f, k, &p[k as usize]));
        }
        n += 1;
    }
    let mut k = 0;
    while k < 3 { each12(&good(aqua_get(&mut f, k)), &p[k as usize], BACK); k += 1; }
    reach("read back");
}

const BEFORE: &str = "use before initialisation is refused with the error of the component";
const AGAIN: &str = "a second initialisation is refused";
const WORKS: &str = "an initialised component works";
const REFUSED: &str = "a bad initialisation is refused";

/// Sensor life cycle: every sequence of three calls.
#[no_mangle]
pub fn c24_sensor() {
    let mut s = S::new(choose(3));
    let mut on = false;
    let mut p = PLAIN;
    let mut seen = [0.0; 3];
    let steps = if thorough() { 4 } else { 3 };
    let mut n = 0;
    while n < steps {
        match choose(6) {
            0 => {
                let q = fins();
                match s.init(&q) {
                    Ok(()) => { check(!on, AGAIN); on = true; p = q; }
                    Err(e) => { check(on, "a first initialisation succeeds"); check(s.twice(&e), AGAIN); }
                }
            }
            1 => {
                let mut q = fins();
                q[choose(2) as usize * 11] = f32::NAN;
                match s.init(&q) {
                    Ok(()) => check(false, REFUSED),
                    Err(e) => if on { check(s.twice(&e), AGAIN) },
                }
            }
            2 => {
                let q = fins();
                match s.set(&q) {
                    Ok(()) => { check(on, BEFORE); p = q; }
                    Err(e) => { check(!on, WORKS); check(s.missing(&e), BEFORE); }
                }
            }
            3 => match s.get() {
                Ok(q) => { check(on, BEFORE); each12(&q, &p, BACK); }
                Err(e) => { check(!on, WORKS); check(s.missing(&e), BEFORE); }
            },
            4 => match s.update(&[1.0, 0.0, 0.0]) {
                Ok(()) => { check(on, BEFORE); seen = [p[0], 1.0, 1.0]; }
                Err(e) => if !on { check(s.missing(&e), BEFORE) },
            },
            _ => {
                let mut i = 0;
                while i < 3 {
                    match s.axis(i) {
                        Ok(x) => { check(on, BEFORE); if seen[1] == 0.0 { same(x, 0.0, "the reading is zero before the first measurement"); } }
                        Err(e) => { check(!on, WORKS); check(s.missing(&e), BEFORE); }
                    }
                    i += 1;
                }
            }
        }
        n += 1;
    }
    reach("lived");
}

pub fn attitude(r: Result<linalg::vector::Vector<f32>, E>) -> [f32; 4] { q4(&good(r)) }

/// Angular-rate filter life cycle.
#[no_mangle]
pub fn c24_rate() {
    let mut f = good(AR::new());
    let mut on = false;
    let mut q = [0.0; 4];
    let steps = if thorough() { 4 } else { 3 };
    let mut n = 0;
    while n < steps {
        let c = choose(6);
        match c {
            0 | 1 | 2 => {
                let mut p = PLAIN;
                let mut u = [0.5, -0.5, 0.5, 0.5];
                if c == 1 { u[if choose(2) == 0 { 0 } else { 3 }] = f32::NAN; }
                if c == 2 { p[choose(2) as usize * 11] = f32::NAN; }
                match f.init(u[0], u[1], u[2], u[3], &gyr_cfg(&p), 0.5, NIM::ClosedForm, 1) {
                    Ok(()) => { check(!on, AGAIN); check(c == 0, REFUSED); on = true; q = u; }
                    Err(e) => {
                        if on { check(matches!(e, E::ARFilterAlreadyInit), AGAIN); }
                        else { check(c != 0, "a component can be initialised after a refused initialisation"); }
                    }
                }
            }
            3 | 4 => {
                let w = if c == 3 { [range(0.25, 2.0), 0.0, 0.0] } else { [1.0, f32::NAN, 0.0] };
                match f.update(w[0], w[1], w[2]) {
                    Ok(()) => { check(on, BEFORE); check(c == 3, "a measurement that is not finite is refused"); q = attitude(f.get_attitude()); }
                    Err(e) => { if on { check(c == 4, WORKS) } else { check(matches!(e, E::ARFilterNotInit), BEFORE) } }
                }
            }
            _ => if let Err(e) = f.get_attitude() { check(!on, WORKS); check(matches!(e, E::ARFilterNotInit), BEFORE); },
        }
        if on { each4(&attitude(f.get_attitude()), &q, "only a successful call changes the attitude"); }
        else { check(f.get_attitude().is_err(), BEFORE); }
        n += 1;
    }
    reach("lived");
}

pub fn feed(f: &mut Aqua, w: &[f32; 3], a: &[f32; 3], m: &[f32; 3]) -> Result<(), E> {
    f.update(Some(w[0]), Some(w[1]), Some(w[2]), a[0], a[1], a[2], m[0], m[1], m[2])
}

const START: [f32; 4] = [0.75, 0.0, 0.0, 1.0];

/// Aqua filter life cycle.
#[no_mangle]
pub fn c24_aqua() {
    let mode = choose(2);
    let mut f = good(Aqua::new());
    let mut on = false;
    let mut q = [0.0; 4];
    let steps = if thorough() { 4 } else { 3 };
    let mut n = 0;
    while n < steps {
        let c = choose(8);
        match c {
            0..=4 => {
                let mut a = A::new(mode).at(&START);
                a.alpha = 1.0;
                a.beta = 1.0;
                if c == 1 { a.q[choose(2) as usize * 3] = Some(f32::NAN); }
                if c == 2 { a.q[1] = None; }
                if c == 3 { let mut p = PLAIN; p[11] = f32::NAN; if choose(2) == 0 { a.acc = p; } else { a.mag = p; } }
                if c == 4 { a.gyr = None; }
                match a.init(&mut f) {
                    Ok(()) => { check(!on, AGAIN); check(c == 0 || (c == 4 && mode == AM), REFUSED); on = true; q = START; }
                    Err(e) => {
                        if on { check(matches!(e, E::AquaFilterAlreadyInit), AGAIN); }
                        else { check(c != 0, "a component can be initialised after a refused initialisation"); }
                    }
                }
            }
            5 | 6 => {
                // a field straight along the measured gravity has no horizontal part and may be refused
                let m = match choose(3) { 0 => [1.0, 0.0, 1.0], 1 => [0.0, 0.0, 1.0], _ => [0.0, f32::NAN, 1.0] };
                let a = if c == 5 { [0.0, 0.0, -9.81] } else { [f32::INFINITY, 0.0, 0.0] };
                match feed(&mut f, &[0.0, 0.0, 0.0], &a, &m) {
                    Ok(()) => { check(on, BEFORE); check(c == 5, "a measurement that is not finite is refused"); q = attitude(f.get_attitude()); }
                    Err(e) => { if on { check(c == 6 || m[0] == 0.0, WORKS) } else { check(matches!(e, E::AquaFilterNotInit), BEFORE) } }
                }
            }
            _ => if let Err(e) = f.get_attitude() { check(!on, WORKS); check(matches!(e, E::AquaFilterNotInit), BEFORE); },
        }
        if on { each4(&attitude(f.get_attitude()), &q, "only a successful call changes the attitude"); }
        else { check(f.get_attitude().is_err(), BEFORE); }
        n += 1;
    }
    reach("lived");
}

/// Davenport filter life cycle.
#[no_mangle]
pub fn c24_davenport() {
    let mut f = good(Davenport::new());
    let mut on = false;
    let mut n = 0;
    while n < 3 {
        let c = choose(4);
        match c {
            0 | 1 => {
                let (a, b) = if c == 0 { (range(0.01, 1.0), range(0.01, 1.0)) } else { match choose(3) { 0 => (2.0, 0.5), 1 => (0.5, 0.0), _ => (f32::NAN, 0.5) } };
                match f.init(a, b, None, None) {
                    Ok(()) => { check(!on, AGAIN); check(c == 0, REFUSED); on = true; }
                    Err(e) => {
                        if on { check(matches!(e, E::DavenportFilterAlreadyInit), AGAIN); }
                        else { check(c != 0, "a component can be initialised after a refused initialisation"); }
                    }
                }
            }
            _ => match f.update(fin(), fin(), fin(), fin(), fin(), if c == 2 { fin() } else { f32::NAN }) {
                Ok(()) => { check(on, BEFORE); check(c == 2, "a measurement that is not finite is refused"); }
                Err(e) => if !on { check(matches!(e, E::DavenportFilterNotInit), BEFORE) },
            },
        }
        n += 1;
    }
    reach("lived");
}

/// Which arguments an Aqua filter takes at initialisation.
#[no_mangle]
pub fn c27_init() {
    let mode = choose(2);
    let mut a = A::new(mode);
    let m = choose(16);
    let mut i = 0;
    while i < 4 { if m & (1 << i) != 0 { a.q[i] = Some(fin()); } i += 1; }
    if choose(2) == 0 { a.gyr = None; }
    let whole = m == 0 || m == 15;
    let gyro = mode == AM || a.gyr.is_some();
    let mut f = good(Aqua::new());
    match a.init(&mut f) {
        Ok(()) => {
            check(whole, "an attitude given in part is refused");
            check(gyro, "gyro mode needs a gyro configuration");
            let q = attitude(f.get_attitude());
            if m == 15 { each4(&q, &[val(a.q[0]), val(a.q[1]), val(a.q[2]), val(a.q[3])], "the initial attitude is the one given"); }
            else { each4(&q, &[1.0, 0.0, 0.0, 0.0], "without an attitude the filter starts from the identity"); }
            reach("started");
        }
        Err(e) => {
            check(!whole || !gyro, "a well-formed initialisation is accepted");
            check(if whole { matches!(e, E::NoGyroconfig) } else if gyro { matches!(e, E::InvalidInitQuaternion) } else { matches!(e, E::NoGyroconfig | E::InvalidInitQuaternion) }, "each omission has its own error");
            reach("refused");
        }
    }
}

fn val(x: Option<f32>) -> f32 { match x { Some(x) => x, None => 0.0 } }

/// Which rates an update needs.
#[no_mangle]
pub fn c27_rates() {
    let mode = choose(2);
    let mut f = A::new(mode).start();
    let m = choose(8);
    let mut w = [None; 3];
    let mut i = 0;
    while i < 3 { if m & (1 << i) != 0 { w[i] = Some(0.0); } i += 1; }
    match f.update(w[0], w[1], w[2], 0.0, 0.0, -9.81, 1.0, 0.0, 1.0) {
        Ok(()) => { check(mode == AM || m == 7, "gyro mode needs all three rates"); reach("updated"); }
        Err(e) => {
            check(mode == MARG && m != 7, "a complete measurement is accepted");
            check(if m == 0 { matches!(e, E::NoGyroRawMeasurements) } else { matches!(e, E::InvalidGyroRawMeasurements) }, "each omission has its own error");
            reach("refused");
        }
    }
}

/// Gains and thresholds.
#[no_mangle]
pub fn c27_gains() {
    let mode = choose(2);
    let mut a = A::new(mode);
    let z = choose(6);
    let x = range(-4.0, 4.0);
    match z { 0 => a.t_acc = x, 1 => a.t_mag = x, 2 => a.alpha = x, 3 => a.beta = x, 4 => { a.adaptive = true; a.t1 = x; } _ => { a.t1 = x; a.t2 = 0.0; } }
    let mut f = a.start();
    // level and pointing along the field, but turned a little so that every correction is used
    match feed(&mut f, &[0.0; 3], &[0.0, 24.0, -7.0], &[1.0, 0.0, 0.0]) {
        Ok(()) => {
            if mode == MARG {
                if z < 4 { check((x >= -1e-5) & (x <= 1.00001), "a gain or threshold outside [0, 1] is refused"); }
                if z == 4 { check(x < 0.2, "adaptive thresholds in the wrong order are refused"); }
            }
            reach("updated");
        }
        Err(e) => {
            check(mode == MARG, "without gyro gains and thresholds are ignored");
            if z < 4 { check((x < 1e-5) | (x > 0.99999), "a gain or threshold inside [0, 1] is accepted"); }
            if z < 2 { check(matches!(e, E::InvalidAquaInterpolationTreshold), "the refusal names the threshold"); }
            if z == 4 { check(x > 0.19999, "adaptive thresholds in order are accepted"); check(matches!(e, E::InvalidAdaptiveGainTresholds), "the refusal names the adaptive thresholds"); }
            check(z != 5, "adaptive thresholds are ignored without adaptive gain");
            reach("refused");
        }
    }
}

/// Davenport weights, every float.
#[no_mangle]
pub fn c30_weights() {
    let (a, b) = (any(), any());
    let mut f = good(Davenport::new());
    let g = if choose(2) == 0 { None } else { Some(fin()) };
    let d = if choose(2) == 0 { None } else { Some(fin()) };
    match f.init(a, b, g, d) {
        Ok(()) => { check((a > 0.0) & (a <= 1.0) & (b > 0.0) & (b <= 1.0), "weights outside (0, 1] are refused"); reach("started"); }
        Err(e) => {
            check(matches!(e, E::InvalidDavenportWeights), "the refusal names the weights");
            check(!((a >= 0.001) & (a <= 1.0) & (b >= 0.001) & (b <= 1.0)), "weights in the accepted range are accepted");
            reach("refused");
        }
    }
}

/// Davenport filter accepts measurements.
#[no_mangle]
pub fn c30_update() {
    let mut f = good(Davenport::new());
    let g = if choose(2) == 0 { None } else { Some(range(1.0, 4.0)) };
    let d = if choose(2) == 0 { None } else { Some(range(-1.5, 1.5)) };
    good(f.init(range(0.01, 1.0), range(0.01, 1.0), g, d));
    let mut n = 0;
    while n < 2 { check(f.update(fin(), fin(), fin(), fin(), fin(), fin()).is_ok(), "an initialised filter accepts finite measurements"); n += 1; }
    reach("updated");
}

/// A correction that is refused after another was computed leaves the attitude as it was.
#[no_mangle]
pub fn c24_kept() {
    let mut a = A::new(MARG).at(&[1.0, 0.0, 0.0, 0.0]);
    a.alpha = 1.0;
    let x = range(-4.0, 4.0);
    assume(if choose(2) == 0 { x < -1e-5 } else { x > 1.00001 });
    match choose(3) { 0 => a.t_mag = x, 1 => a.beta = x, _ => a.t_acc = x }
    let mut f = a.start();
    match feed(&mut f, &[0.0; 3], &[0.0, 24.0, -7.0], &[1.0, 0.0, 0.0]) {
        Ok(()) => (),
        Err(_) => { each4(&attitude(f.get_attitude()), &[1.0, 0.0, 0.0, 0.0], "only a successful call changes the attitude"); reach("refused"); }
    }
}
