//! A number type as a user of the library may bring: a double whose operations run user code.
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::{Cell, RefCell};
use std::ops::{Add, Div, Mul, Neg, Rem, Sub};
use std::rc::Rc;

thread_local! {
    /// called with true for a conversion, with false for any other operation
    static HOOK: RefCell<Option<Rc<dyn Fn(bool)>>> = RefCell::new(None);
    static BUSY: Cell<bool> = Cell::new(false);
}
/// Runs f with the hook in place on this thread.
pub fn with_hook<R>(h: Rc<dyn Fn(bool)>, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            let h = HOOK.with(|k| k.borrow_mut().take());
            crate::sim::quiet(|| drop(h));
        }
    }
    HOOK.with(|k| *k.borrow_mut() = Some(h));
    let _off = Off;
    f()
}
fn tick(conversion: bool) {
    if BUSY.with(|b| b.get()) {
        return;
    }
    if let Some(h) = HOOK.with(|k| k.borrow().clone()) {
        struct Free;
        impl Drop for Free {
            fn drop(&mut self) {
                BUSY.with(|b| b.set(false));
            }
        }
        BUSY.with(|b| b.set(true));
        let _free = Free;
        h(conversion);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, PartialOrd)]
pub struct Fussy(pub f64);

macro_rules! bin {
    ($($t:ident $m:ident)*) => { $(impl $t for Fussy {
        type Output = Fussy;
        fn $m(self, b: Fussy) -> Fussy {
            tick(false);
            Fussy((self.0).$m(b.0))
        }
    })* }
}
bin! { Add add Sub sub Mul mul Div div Rem rem }
impl Neg for Fussy {
    type Output = Fussy;
    fn neg(self) -> Fussy {
        tick(false);
        Fussy(-self.0)
    }
}
impl Zero for Fussy {
    fn zero() -> Fussy {
        Fussy(0.0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0.0
    }
}
impl One for Fussy {
    fn one() -> Fussy {
        Fussy(1.0)
    }
}
impl Num for Fussy {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Fussy, Self::FromStrRadixErr> {
        f64::from_str_radix(s, r).map(Fussy)
    }
}
impl ToPrimitive for Fussy {
    fn to_i64(&self) -> Option<i64> {
        tick(true);
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        tick(true);
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        tick(true);
        Some(self.0)
    }
    fn to_f32(&self) -> Option<f32> {
        tick(true);
        Some(self.0 as f32)
    }
}
impl NumCast for Fussy {
    fn from<T: ToPrimitive>(v: T) -> Option<Fussy> {
        tick(true);
        v.to_f64().map(Fussy)
    }
}
macro_rules! float {
    (const $($c:ident)*; is $($i:ident)*; un $($u:ident)*; two $($b:ident)*) => {
        impl Float for Fussy {
            $(fn $c() -> Fussy { Fussy(<f64 as Float>::$c()) })*
            $(fn $i(self) -> bool { Float::$i(self.0) })*
            $(fn $u(self) -> Fussy { tick(false); Fussy(Float::$u(self.0)) })*
            $(fn $b(self, b: Fussy) -> Fussy { tick(false); Fussy(Float::$b(self.0, b.0)) })*
            fn classify(self) -> std::num::FpCategory {
                Float::classify(self.0)
            }
            fn mul_add(self, a: Fussy, b: Fussy) -> Fussy {
                tick(false);
                Fussy(Float::mul_add(self.0, a.0, b.0))
            }
            fn powi(self, n: i32) -> Fussy {
                tick(false);
                Fussy(Float::powi(self.0, n))
            }
            fn sin_cos(self) -> (Fussy, Fussy) {
                tick(false);
                let (s, c) = Float::sin_cos(self.0);
                (Fussy(s), Fussy(c))
            }
            fn integer_decode(self) -> (u64, i16, i8) {
                Float::integer_decode(self.0)
            }
        }
    };
}
float! {
    const nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon;
    is is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative;
    un floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh;
    two powf log max min abs_sub hypot atan2
}
