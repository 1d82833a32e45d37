/// The traits of a number type that has int, plus, times, over, whole, Neg, PartialOrd and ToPrimitive
#[macro_export]
macro_rules! numeric {
    ($t:ident) => {
        impl std::ops::Add for $t { type Output = Self; fn add(self, o: Self) -> Self { self.plus(o) } }
        impl std::ops::Sub for $t { type Output = Self; fn sub(self, o: Self) -> Self { self.plus(-o) } }
        impl std::ops::Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { self.times(o) } }
        impl std::ops::Div for $t { type Output = Self; fn div(self, o: Self) -> Self { self.over(o) } }
        impl std::ops::Rem for $t { type Output = Self; fn rem(self, o: Self) -> Self { self - o * triangulate::Real::trunc(self / o) } }
        impl num_traits::Zero for $t { fn zero() -> Self { $t::int(0) } fn is_zero(&self) -> bool { *self == $t::int(0) } }
        impl num_traits::One for $t { fn one() -> Self { $t::int(1) } }
        impl num_traits::Num for $t {
            type FromStrRadixErr = ();
            fn from_str_radix(s: &str, r: u32) -> Result<Self, ()> { i64::from_str_radix(s, r).map(|n| $t::int(n as i128)).map_err(|_| ()) }
        }
        impl num_traits::NumCast for $t { fn from<T: num_traits::ToPrimitive>(n: T) -> Option<Self> { n.to_i64().map(|n| $t::int(n as i128)) } }
        impl triangulate::Real for $t {
            fn min_value() -> Self { $t::int(-(1 << 100)) }
            fn min_positive_value() -> Self { $t::int(1) / $t::int(1 << 60) }
            fn epsilon() -> Self { $t::int(1) / $t::int(1 << 60) }
            fn max_value() -> Self { $t::int(1 << 100) }
            fn floor(self) -> Self { self.whole() }
            fn ceil(self) -> Self { -(-self).whole() }
            fn round(self) -> Self { (self + $t::int(1) / $t::int(2)).whole() }
            fn trunc(self) -> Self { if self < $t::int(0) { -(-self).whole() } else { self.whole() } }
            fn fract(self) -> Self { self - triangulate::Real::trunc(self) }
            fn abs(self) -> Self { if self < $t::int(0) { -self } else { self } }
            fn signum(self) -> Self { if self < $t::int(0) { -$t::int(1) } else { $t::int(1) } }
            fn is_sign_positive(self) -> bool { self >= $t::int(0) }
            fn is_sign_negative(self) -> bool { self < $t::int(0) }
            fn mul_add(self, a: Self, b: Self) -> Self { self * a + b }
            fn recip(self) -> Self { $t::int(1) / self }
            fn powi(self, n: i32) -> Self { let p = (0..n.abs()).fold($t::int(1), |p, _| p * self); if n < 0 { $t::int(1) / p } else { p } }
            fn max(self, o: Self) -> Self { if self < o { o } else { self } }
            fn min(self, o: Self) -> Self { if o < self { o } else { self } }
            fn abs_sub(self, o: Self) -> Self { if self <= o { $t::int(0) } else { self - o } }
            fn to_degrees(self) -> Self { unimplemented!() }
            fn to_radians(self) -> Self { unimplemented!() }
            fn powf(self, _: Self) -> Self { unimplemented!() }
            fn sqrt(self) -> Self { unimplemented!() }
            fn exp(self) -> Self { unimplemented!() }
            fn exp2(self) -> Self { unimplemented!() }
            fn ln(self) -> Self { unimplemented!() }
            fn log(self, _: Self) -> Self { unimplemented!() }
            fn log2(self) -> Self { unimplemented!() }
            fn log10(self) -> Self { unimplemented!() }
            fn cbrt(self) -> Self { unimplemented!() }
            fn hypot(self, _: Self) -> Self { unimplemented!() }
            fn sin(self) -> Self { unimplemented!() }
            fn cos(self) -> Self { unimplemented!() }
            fn tan(self) -> Self { unimplemented!() }
            fn asin(self) -> Self { unimplemented!() }
            fn acos(self) -> Self { unimplemented!() }
            fn atan(self) -> Self { unimplemented!() }
            fn atan2(self, _: Self) -> Self { unimplemented!() }
            fn sin_cos(self) -> (Self, Self) { unimplemented!() }
            fn exp_m1(self) -> Self { unimplemented!() }
            fn ln_1p(self) -> Self { unimplemented!() }
            fn sinh(self) -> Self { unimplemented!() }
            fn cosh(self) -> Self { unimplemented!() }
            fn tanh(self) -> Self { unimplemented!() }
            fn asinh(self) -> Self { unimplemented!() }
            fn acosh(self) -> Self { unimplemented!() }
            fn atanh(self) -> Self { unimplemented!() }
        }
    };
}
