//! Every complex-FFT entry point of the library as a named in-place operation.
use crate::oracle::*;
use kofft::fft::*;
use kofft::Complex;
use std::any::TypeId;

type R = Result<(), FftError>;
pub struct Entry<T: Sc> {
    pub name: &'static str,
    pub f: Box<dyn Fn(&mut Vec<Complex<T>>) -> R>,
    /// Lengths the entry point supports (others must be refused).
    pub ok: fn(usize) -> bool,
    /// Lengths the harness must not offer at all (fixed-size kernels).
    pub offer: fn(usize) -> bool,
}
pub const STD: bool = cfg!(feature = "std");
pub fn any_len(n: usize) -> bool {
    n >= 1 && (STD || n.is_power_of_two())
}
pub fn pow2(n: usize) -> bool {
    n.is_power_of_two()
}
fn all(_: usize) -> bool {
    true
}
pub const STRATS: [(FftStrategy, &str); 4] = [
    (FftStrategy::Radix2, "Radix2"),
    (FftStrategy::Radix4, "Radix4"),
    (FftStrategy::SplitRadix, "SplitRadix"),
    (FftStrategy::Auto, "Auto"),
];
pub fn is32<T: 'static>() -> bool {
    TypeId::of::<T>() == TypeId::of::<f32>()
}
/// Reinterpret a vector whose element type is known to be f32.
fn as32<T: Sc>(v: &mut Vec<Complex<T>>) -> &mut Vec<Complex32> {
    assert!(is32::<T>());
    (v as &mut dyn std::any::Any).downcast_mut().unwrap()
}
fn push<T: Sc>(
    v: &mut Vec<Entry<T>>,
    name: &'static str,
    ok: fn(usize) -> bool,
    offer: fn(usize) -> bool,
    f: impl Fn(&mut Vec<Complex<T>>) -> R + 'static,
) {
    v.push(Entry { name, f: Box::new(f), ok, offer });
}
fn split_op<T: Sc>(v: &mut Vec<Complex<T>>, f: impl FnOnce(&mut [T], &mut [T]) -> R) -> R {
    let mut re: Vec<T> = v.iter().map(|c| c.re).collect();
    let mut im: Vec<T> = v.iter().map(|c| c.im).collect();
    let r = f(&mut re, &mut im);
    for (c, (a, b)) in v.iter_mut().zip(re.into_iter().zip(im)) {
        c.re = a;
        c.im = b;
    }
    r
}
fn oop<T: Sc>(v: &mut Vec<Complex<T>>, f: impl FnOnce(&[Complex<T>], &mut [Complex<T>]) -> R) -> R {
    let mut out = vec![cx::<T>(7.0, -7.0); v.len()];
    f(v, &mut out)?;
    *v = out;
    Ok(())
}
macro_rules! stack_sizes {
    ($v:expr, $f:ident, $($n:literal)*) => {
        match $v.len() {
            $($n => { let a: &mut [Complex32; $n] = (&mut $v[..]).try_into().unwrap(); $f(a) })*
            _ => Err(FftError::NonPowerOfTwoNoStd),
        }
    };
}
fn stack_ok(n: usize) -> bool {
    n.is_power_of_two() && n <= 4096
}
fn stack_offer(n: usize) -> bool {
    n.is_power_of_two() && n <= 4096 || [3, 5, 6, 7, 12, 24, 100].contains(&n)
}
pub fn stack_fft(v: &mut [Complex32], inv: bool) -> R {
    if inv {
        stack_sizes!(v, ifft_inplace_stack, 1 2 3 4 5 6 7 8 12 16 24 32 64 100 128 256 512 1024 2048 4096)
    } else {
        stack_sizes!(v, fft_inplace_stack, 1 2 3 4 5 6 7 8 12 16 24 32 64 100 128 256 512 1024 2048 4096)
    }
}

pub fn forward<T: Sc>() -> Vec<Entry<T>> {
    let mut v: Vec<Entry<T>> = vec![];
    push(&mut v, "ScalarFftImpl::fft", any_len, all, |d| ScalarFftImpl::<T>::default().fft(d));
    push(&mut v, "ScalarFftImpl::with_planner.fft", any_len, all, |d| {
        ScalarFftImpl::<T>::with_planner(FftPlanner::new()).fft(d)
    });
    push(&mut v, "ScalarFftImpl::fft_out_of_place", any_len, all, |d| {
        oop(d, |i, o| ScalarFftImpl::<T>::default().fft_out_of_place(i, o))
    });
    push(&mut v, "ScalarFftImpl::fft_strided(1)", any_len, all, |d| {
        let mut s = vec![cx::<T>(9.0, 9.0); d.len()];
        ScalarFftImpl::<T>::default().fft_strided(d, 1, &mut s)
    });
    push(&mut v, "ScalarFftImpl::fft_strided_alloc(1)", any_len, all, |d| {
        ScalarFftImpl::<T>::default().fft_strided_alloc(d, 1)
    });
    push(&mut v, "ScalarFftImpl::fft_out_of_place_strided(1,1)", any_len, all, |d| {
        oop(d, |i, o| ScalarFftImpl::<T>::default().fft_out_of_place_strided(i, 1, o, 1))
    });
    push(&mut v, "ScalarFftImpl::fft_split", any_len, all, |d| {
        split_op(d, |re, im| ScalarFftImpl::<T>::default().fft_split(re, im))
    });
    push(&mut v, "fft_split", any_len, all, |d| split_op(d, |re, im| fft_split(re, im)));
    push(&mut v, "fft_split_complex", any_len, all, |d| {
        split_op(d, |re, im| fft_split_complex(SplitComplex::new(re, im)))
    });
    push(&mut v, "fft_parallel", any_len, all, |d| fft_parallel(d));
    push(&mut v, "stockham_fft", any_len, all, |d| ScalarFftImpl::<T>::default().stockham_fft(d));
    push(&mut v, "batch", any_len, all, |d| {
        let mut b = [d.clone()];
        batch(&ScalarFftImpl::<T>::default(), &mut b)?;
        *d = b[0].clone();
        Ok(())
    });
    for (i, (_, name)) in STRATS.iter().enumerate() {
        let nm: &'static str = ["fft_with_strategy(Radix2)", "fft_with_strategy(Radix4)", "fft_with_strategy(SplitRadix)", "fft_with_strategy(Auto)"][i];
        debug_assert!(nm.contains(name));
        push(&mut v, nm, any_len, all, move |d| ScalarFftImpl::<T>::default().fft_with_strategy(d, STRATS[i].0));
    }
    push(&mut v, "fft8", |n| n == 8, |n| n == 8, |d| {
        fft8(d);
        Ok(())
    });
    push(&mut v, "fft16", |n| n == 16, |n| n == 16, |d| {
        fft16(d);
        Ok(())
    });
    #[cfg(feature = "std")]
    {
        push(&mut v, "fft_vec", any_len, all, |d| {
            *d = ScalarFftImpl::<T>::default().fft_vec(d)?;
            Ok(())
        });
        push(&mut v, "fft_radix4", any_len, all, |d| ScalarFftImpl::<T>::default().fft_radix4(d));
        for (i, names) in [
            ["FftPlan(Radix2)::fft", "FftPlan(Radix2)::fft_out_of_place", "FftPlan(Radix2)::fft_split"],
            ["FftPlan(Radix4)::fft", "FftPlan(Radix4)::fft_out_of_place", "FftPlan(Radix4)::fft_split"],
            ["FftPlan(SplitRadix)::fft", "FftPlan(SplitRadix)::fft_out_of_place", "FftPlan(SplitRadix)::fft_split"],
            ["FftPlan(Auto)::fft", "FftPlan(Auto)::fft_out_of_place", "FftPlan(Auto)::fft_split"],
        ]
        .into_iter()
        .enumerate()
        {
            push(&mut v, names[0], any_len, all, move |d| FftPlan::<T>::new(d.len(), STRATS[i].0).fft(d));
            push(&mut v, names[1], any_len, all, move |d| {
                oop(d, |a, o| FftPlan::<T>::new(a.len(), STRATS[i].0).fft_out_of_place(a, o))
            });
            push(&mut v, names[2], any_len, all, move |d| {
                let n = d.len();
                split_op(d, |re, im| FftPlan::<T>::new(n, STRATS[i].0).fft_split(re, im))
            });
        }
    }
    if is32::<T>() {
        #[cfg(target_arch = "x86_64")]
        {
            push(&mut v, "SimdFftX86_64Impl::fft", any_len, all, |d| SimdFftX86_64Impl.fft(as32(d)));
            push(&mut v, "SimdFftX86_64Impl::fft_split", any_len, all, |d| {
                let d = as32(d);
                split_op(d, |re, im| SimdFftX86_64Impl.fft_split(re, im))
            });
            push(&mut v, "SimdFftX86_64Impl::fft_strided_alloc(1)", any_len, all, |d| {
                SimdFftX86_64Impl.fft_strided_alloc(as32(d), 1)
            });
            push(&mut v, "SimdFftX86_64Impl::fft_out_of_place_strided(1,1)", any_len, all, |d| {
                oop(as32(d), |i, o| SimdFftX86_64Impl.fft_out_of_place_strided(i, 1, o, 1))
            });
            push(&mut v, "SimdFftX86_64Impl::fft_with_strategy(Auto)", any_len, all, |d| {
                SimdFftX86_64Impl.fft_with_strategy(as32(d), FftStrategy::Auto)
            });
        }
        push(&mut v, "new_fft_impl().fft", any_len, all, |d| new_fft_impl().fft(as32(d)));
        push(&mut v, "new_fft_impl().fft_out_of_place", any_len, all, |d| {
            oop(as32(d), |i, o| new_fft_impl().fft_out_of_place(i, o))
        });
        push(&mut v, "fft_mixed_radix", any_len, all, |d| ScalarFftImpl::<f32>::default().fft_mixed_radix(as32(d)));
        push(&mut v, "fft_inplace_stack", stack_ok, stack_offer, |d| stack_fft(as32(d), false));
        #[cfg(feature = "std")]
        {
            push(&mut v, "fft_radix2_with_twiddles", any_len, all, |d| {
                let tw = TwiddleFactorBuffer::new(d.len());
                ScalarFftImpl::<f32>::default().fft_radix2_with_twiddles(as32(d), &tw)
            });
            push(&mut v, "fft_radix4_with_twiddles", any_len, all, |d| {
                let tw = TwiddleFactorBuffer::new(d.len());
                ScalarFftImpl::<f32>::default().fft_radix4_with_twiddles(as32(d), &tw)
            });
            push(&mut v, "fft_mixed_radix_with_twiddles", any_len, all, |d| {
                let tw = TwiddleFactorBuffer::new(d.len());
                ScalarFftImpl::<f32>::default().fft_mixed_radix_with_twiddles(as32(d), &tw)
            });
        }
        #[cfg(any(feature = "simd", feature = "soa"))]
        {
            use kofft::num::ComplexVec;
            push(&mut v, "fft_complex_vec", any_len, all, |d| {
                let d = as32(d);
                let mut cv = ComplexVec::from_complex_vec(d);
                fft_complex_vec(&mut cv)?;
                *d = cv.to_complex_vec();
                Ok(())
            });
            #[cfg(feature = "std")]
            push(&mut v, "FftPlan::fft_complex_vec", any_len, all, |d| {
                let d = as32(d);
                let mut cv = ComplexVec::from_complex_vec(d);
                FftPlan::<f32>::new(d.len(), FftStrategy::Auto).fft_complex_vec(&mut cv)?;
                *d = cv.to_complex_vec();
                Ok(())
            });
        }
    }
    v
}

pub fn inverse<T: Sc>() -> Vec<Entry<T>> {
    let mut v: Vec<Entry<T>> = vec![];
    push(&mut v, "ScalarFftImpl::ifft", any_len, all, |d| ScalarFftImpl::<T>::default().ifft(d));
    push(&mut v, "ScalarFftImpl::ifft_out_of_place", any_len, all, |d| {
        oop(d, |i, o| ScalarFftImpl::<T>::default().ifft_out_of_place(i, o))
    });
    push(&mut v, "ScalarFftImpl::ifft_strided(1)", any_len, all, |d| {
        let mut s = vec![cx::<T>(9.0, 9.0); d.len()];
        ScalarFftImpl::<T>::default().ifft_strided(d, 1, &mut s)
    });
    push(&mut v, "ScalarFftImpl::ifft_strided_alloc(1)", any_len, all, |d| {
        ScalarFftImpl::<T>::default().ifft_strided_alloc(d, 1)
    });
    push(&mut v, "ScalarFftImpl::ifft_out_of_place_strided(1,1)", any_len, all, |d| {
        oop(d, |i, o| ScalarFftImpl::<T>::default().ifft_out_of_place_strided(i, 1, o, 1))
    });
    push(&mut v, "ScalarFftImpl::ifft_split", any_len, all, |d| {
        split_op(d, |re, im| ScalarFftImpl::<T>::default().ifft_split(re, im))
    });
    push(&mut v, "ifft_split", any_len, all, |d| split_op(d, |re, im| ifft_split(re, im)));
    push(&mut v, "ifft_split_complex", any_len, all, |d| {
        split_op(d, |re, im| ifft_split_complex(SplitComplex::new(re, im)))
    });
    push(&mut v, "ifft_parallel", any_len, all, |d| ifft_parallel(d));
    push(&mut v, "batch_inverse", any_len, all, |d| {
        let mut b = [d.clone()];
        batch_inverse(&ScalarFftImpl::<T>::default(), &mut b)?;
        *d = b[0].clone();
        Ok(())
    });
    #[cfg(feature = "std")]
    {
        push(&mut v, "ifft_vec", any_len, all, |d| {
            *d = ScalarFftImpl::<T>::default().ifft_vec(d)?;
            Ok(())
        });
        for (i, names) in [
            ["FftPlan(Radix2)::ifft", "FftPlan(Radix2)::ifft_out_of_place", "FftPlan(Radix2)::ifft_split"],
            ["FftPlan(Radix4)::ifft", "FftPlan(Radix4)::ifft_out_of_place", "FftPlan(Radix4)::ifft_split"],
            ["FftPlan(SplitRadix)::ifft", "FftPlan(SplitRadix)::ifft_out_of_place", "FftPlan(SplitRadix)::ifft_split"],
            ["FftPlan(Auto)::ifft", "FftPlan(Auto)::ifft_out_of_place", "FftPlan(Auto)::ifft_split"],
        ]
        .into_iter()
        .enumerate()
        {
            push(&mut v, names[0], any_len, all, move |d| FftPlan::<T>::new(d.len(), STRATS[i].0).ifft(d));
            push(&mut v, names[1], any_len, all, move |d| {
                oop(d, |a, o| FftPlan::<T>::new(a.len(), STRATS[i].0).ifft_out_of_place(a, o))
            });
            push(&mut v, names[2], any_len, all, move |d| {
                let n = d.len();
                split_op(d, |re, im| FftPlan::<T>::new(n, STRATS[i].0).ifft_split(re, im))
            });
        }
    }
    if is32::<T>() {
        #[cfg(target_arch = "x86_64")]
        {
            push(&mut v, "SimdFftX86_64Impl::ifft", any_len, all, |d| SimdFftX86_64Impl.ifft(as32(d)));
            push(&mut v, "SimdFftX86_64Impl::ifft_split", any_len, all, |d| {
                let d = as32(d);
                split_op(d, |re, im| SimdFftX86_64Impl.ifft_split(re, im))
            });
            push(&mut v, "SimdFftX86_64Impl::ifft_strided_alloc(1)", any_len, all, |d| {
                SimdFftX86_64Impl.ifft_strided_alloc(as32(d), 1)
            });
            push(&mut v, "SimdFftX86_64Impl::ifft_out_of_place_strided(1,1)", any_len, all, |d| {
                oop(as32(d), |i, o| SimdFftX86_64Impl.ifft_out_of_place_strided(i, 1, o, 1))
            });
        }
        push(&mut v, "new_fft_impl().ifft", any_len, all, |d| new_fft_impl().ifft(as32(d)));
        push(&mut v, "new_fft_impl().ifft_out_of_place", any_len, all, |d| {
            oop(as32(d), |i, o| new_fft_impl().ifft_out_of_place(i, o))
        });
        push(&mut v, "ifft_inplace_stack", stack_ok, stack_offer, |d| stack_fft(as32(d), true));
        #[cfg(any(feature = "simd", feature = "soa"))]
        {
            use kofft::num::ComplexVec;
            push(&mut v, "ifft_complex_vec", any_len, all, |d| {
                let d = as32(d);
                let mut cv = ComplexVec::from_complex_vec(d);
                ifft_complex_vec(&mut cv)?;
                *d = cv.to_complex_vec();
                Ok(())
            });
            #[cfg(feature = "std")]
            push(&mut v, "FftPlan::ifft_complex_vec", any_len, all, |d| {
                let d = as32(d);
                let mut cv = ComplexVec::from_complex_vec(d);
                FftPlan::<f32>::new(d.len(), FftStrategy::Auto).ifft_complex_vec(&mut cv)?;
                *d = cv.to_complex_vec();
                Ok(())
            });
        }
    }
    v
}

// ---- engines as interchangeable objects
/// A user's engine with only the required methods: everything else is the trait's default.
pub struct OnlyRequired<T: Sc>(pub kofft::fft::ScalarFftImpl<T>);
impl<T: Sc> FftImpl<T> for OnlyRequired<T> {
    fn fft(&self, d: &mut [Complex<T>]) -> R {
        self.0.fft(d)
    }
    fn ifft(&self, d: &mut [Complex<T>]) -> R {
        self.0.ifft(d)
    }
    fn fft_strided(&self, d: &mut [Complex<T>], s: usize, t: &mut [Complex<T>]) -> R {
        self.0.fft_strided(d, s, t)
    }
    fn ifft_strided(&self, d: &mut [Complex<T>], s: usize, t: &mut [Complex<T>]) -> R {
        self.0.ifft_strided(d, s, t)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> R {
        self.0.fft_out_of_place_strided(i, a, o, b)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> R {
        self.0.ifft_out_of_place_strided(i, a, o, b)
    }
    fn fft_with_strategy(&self, d: &mut [Complex<T>], s: FftStrategy) -> R {
        self.0.fft_with_strategy(d, s)
    }
}
/// A boxed engine, usable where a sized one is asked for. Every method goes to the box.
pub struct Boxed<T: Sc>(pub Box<dyn FftImpl<T>>);
impl<T: Sc> FftImpl<T> for Boxed<T> {
    fn fft(&self, d: &mut [Complex<T>]) -> R {
        self.0.fft(d)
    }
    fn ifft(&self, d: &mut [Complex<T>]) -> R {
        self.0.ifft(d)
    }
    fn fft_out_of_place(&self, i: &[Complex<T>], o: &mut [Complex<T>]) -> R {
        self.0.fft_out_of_place(i, o)
    }
    fn ifft_out_of_place(&self, i: &[Complex<T>], o: &mut [Complex<T>]) -> R {
        self.0.ifft_out_of_place(i, o)
    }
    fn fft_strided(&self, d: &mut [Complex<T>], s: usize, t: &mut [Complex<T>]) -> R {
        self.0.fft_strided(d, s, t)
    }
    fn ifft_strided(&self, d: &mut [Complex<T>], s: usize, t: &mut [Complex<T>]) -> R {
        self.0.ifft_strided(d, s, t)
    }
    fn fft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> R {
        self.0.fft_out_of_place_strided(i, a, o, b)
    }
    fn ifft_out_of_place_strided(&self, i: &[Complex<T>], a: usize, o: &mut [Complex<T>], b: usize) -> R {
        self.0.ifft_out_of_place_strided(i, a, o, b)
    }
    fn fft_with_strategy(&self, d: &mut [Complex<T>], s: FftStrategy) -> R {
        self.0.fft_with_strategy(d, s)
    }
    fn fft_strided_alloc(&self, d: &mut [Complex<T>], s: usize) -> R {
        self.0.fft_strided_alloc(d, s)
    }
    fn ifft_strided_alloc(&self, d: &mut [Complex<T>], s: usize) -> R {
        self.0.ifft_strided_alloc(d, s)
    }
    fn fft_split(&self, re: &mut [T], im: &mut [T]) -> R {
        self.0.fft_split(re, im)
    }
    fn ifft_split(&self, re: &mut [T], im: &mut [T]) -> R {
        self.0.ifft_split(re, im)
    }
}
/// One of the library's engines (or a user's one), as a box.
pub fn pick_engine<T: Sc>(r: &mut crate::fw::Rng) -> (&'static str, Boxed<T>) {
    fn f32_as<T: Sc>(b: Box<dyn FftImpl<f32>>) -> Boxed<T> {
        let e: Box<dyn std::any::Any> = Box::new(b);
        Boxed(*e.downcast::<Box<dyn FftImpl<T>>>().expect("f32 engine"))
    }
    let f32s = TypeId::of::<T>() == TypeId::of::<f32>();
    match r.below(if f32s { 6 } else { 3 }) {
        0 => ("user engine", Boxed(Box::new(OnlyRequired(ScalarFftImpl::<T>::default())))),
        1 | 2 => ("ScalarFftImpl", Boxed(Box::new(ScalarFftImpl::<T>::default()))),
        3 => ("new_fft_impl", f32_as(new_fft_impl())),
        #[cfg(target_arch = "x86_64")]
        _ => ("SimdFft", f32_as(Box::new(SimdFftX86_64Impl::default()))),
        #[cfg(not(target_arch = "x86_64"))]
        _ => ("new_fft_impl", f32_as(new_fft_impl())),
    }
}
