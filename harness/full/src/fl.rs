//! The two float types of the library.

use qlab_math::value::Value;
use std::fmt::{Debug, Display};

pub trait Fl: Value + Debug + Display {
    const EPS: f64;
    /// products below this may lose digits
    const TINY: f64;
    const NAME: &'static str;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
    fn up(self) -> Self;
    fn down(self) -> Self;
    fn nan() -> Self {
        Self::of(f64::NAN)
    }
}

impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const TINY: f64 = 1e-300;
    const NAME: &'static str = "f64";
    fn of(x: f64) -> Self {
        x
    }
    fn f(self) -> f64 {
        self
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
}

impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const TINY: f64 = 1e-36;
    const NAME: &'static str = "f32";
    fn of(x: f64) -> Self {
        x as f32
    }
    fn f(self) -> f64 {
        f64::from(self)
    }
    fn up(self) -> Self {
        self.next_up()
    }
    fn down(self) -> Self {
        self.next_down()
    }
}
