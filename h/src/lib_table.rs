// Uniform view of one build of the crate under test.

pub type T<F> = &'static [(&'static str, F)];

pub struct Lib {
    pub name: &'static str,
    pub u16: T<fn(f16) -> f16>,
    pub u32: T<fn(f32) -> f32>,
    pub u64: T<fn(f64) -> f64>,
    pub u128: T<fn(f128) -> f128>,
    /// One component of a function with two results.
    pub x32: T<fn(f32) -> f32>,
    pub x64: T<fn(f64) -> f64>,
    pub b16: T<fn(f16, f16) -> f16>,
    pub b32: T<fn(f32, f32) -> f32>,
    pub b64: T<fn(f64, f64) -> f64>,
    pub b128: T<fn(f128, f128) -> f128>,
    pub t32: T<fn(f32, f32, f32) -> f32>,
    pub t64: T<fn(f64, f64, f64) -> f64>,
    pub t128: T<fn(f128, f128, f128) -> f128>,
    pub fi16: T<fn(f16, i32) -> f16>,
    pub fi32: T<fn(f32, i32) -> f32>,
    pub fi64: T<fn(f64, i32) -> f64>,
    pub fi128: T<fn(f128, i32) -> f128>,
    pub if32: T<fn(i32, f32) -> f32>,
    pub if64: T<fn(i32, f64) -> f64>,
    pub pp32: T<fn(f32) -> (f32, f32)>,
    pub pp64: T<fn(f64) -> (f64, f64)>,
    pub pi32: T<fn(f32) -> (f32, i32)>,
    pub pi64: T<fn(f64) -> (f64, i32)>,
    pub i32: T<fn(f32) -> i32>,
    pub i64: T<fn(f64) -> i32>,
    pub q32: T<fn(f32, f32) -> (f32, i32)>,
    pub q64: T<fn(f64, f64) -> (f64, i32)>,
}

pub fn get<F: Copy>(t: T<F>, n: &str) -> F {
    t.iter().find(|e| e.0 == n).unwrap_or_else(|| panic!("no function {n} in the table")).1
}

/// All results packed into bits, so one interface serves every signature.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Out(pub u128, pub u128);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Ty { F16, F32, F64, F128, I32 }

impl Ty {
    pub fn bits(self) -> u32 { match self { Ty::F16 => 16, Ty::F32 | Ty::I32 => 32, Ty::F64 => 64, Ty::F128 => 128 } }
    pub fn sig(self) -> u32 { match self { Ty::F16 => 10, Ty::F32 => 23, Ty::F64 => 52, Ty::F128 => 112, Ty::I32 => 0 } }
    pub fn mask(self) -> u128 { if self == Ty::F128 { !0 } else { (1u128 << self.bits()) - 1 } }
    pub fn is_nan(self, b: u128) -> bool {
        if self == Ty::I32 { return false; }
        let e = self.exp_mask();
        (b & !(1u128 << (self.bits() - 1)) & self.mask()) > e
    }
    pub fn exp_mask(self) -> u128 { ((1u128 << (self.bits() - 1 - self.sig())) - 1) << self.sig() }
    pub fn sign_bit(self) -> u128 { 1u128 << (self.bits() - 1) }
    pub fn show(self, b: u128) -> String {
        match self {
            Ty::F16 => format!("{:#06x}({:e})", b, f16::from_bits(b as u16) as f64),
            Ty::F32 => format!("{:#010x}({:e})", b, f32::from_bits(b as u32)),
            Ty::F64 => format!("{:#018x}({:e})", b, f64::from_bits(b as u64)),
            Ty::F128 => format!("{:#034x}(~{:e})", b, f128::from_bits(b) as f64),
            Ty::I32 => format!("{}", b as u32 as i32),
        }
    }
}

/// A function of the crate with its argument and result types, callable on bits.
#[derive(Clone, Copy)]
pub struct Func {
    pub name: &'static str,
    pub args: &'static [Ty],
    pub res: &'static [Ty],
    pub call: Call,
}

#[derive(Clone, Copy)]
pub enum Call {
    U16(fn(f16) -> f16), U32(fn(f32) -> f32), U64(fn(f64) -> f64), U128(fn(f128) -> f128),
    B16(fn(f16, f16) -> f16), B32(fn(f32, f32) -> f32), B64(fn(f64, f64) -> f64), B128(fn(f128, f128) -> f128),
    T32(fn(f32, f32, f32) -> f32), T64(fn(f64, f64, f64) -> f64), T128(fn(f128, f128, f128) -> f128),
    FI16(fn(f16, i32) -> f16), FI32(fn(f32, i32) -> f32), FI64(fn(f64, i32) -> f64), FI128(fn(f128, i32) -> f128),
    IF32(fn(i32, f32) -> f32), IF64(fn(i32, f64) -> f64),
    PP32(fn(f32) -> (f32, f32)), PP64(fn(f64) -> (f64, f64)),
    PI32(fn(f32) -> (f32, i32)), PI64(fn(f64) -> (f64, i32)),
    I32(fn(f32) -> i32), I64(fn(f64) -> i32),
    Q32(fn(f32, f32) -> (f32, i32)), Q64(fn(f64, f64) -> (f64, i32)),
}

fn h(b: u128) -> f16 { f16::from_bits(b as u16) }
fn s(b: u128) -> f32 { f32::from_bits(b as u32) }
fn d(b: u128) -> f64 { f64::from_bits(b as u64) }
fn q(b: u128) -> f128 { f128::from_bits(b) }
fn i(b: u128) -> i32 { b as u32 as i32 }
pub fn oh(x: f16) -> u128 { x.to_bits() as u128 }
pub fn os(x: f32) -> u128 { x.to_bits() as u128 }
pub fn od(x: f64) -> u128 { x.to_bits() as u128 }
pub fn oq(x: f128) -> u128 { x.to_bits() }
pub fn oi(x: i32) -> u128 { x as u32 as u128 }

impl Func {
    #[inline]
    pub fn run(&self, a: &[u128; 3]) -> Out {
        let [x, y, z] = *a;
        match self.call {
            Call::U16(f) => Out(oh(f(h(x))), 0),
            Call::U32(f) => Out(os(f(s(x))), 0),
            Call::U64(f) => Out(od(f(d(x))), 0),
            Call::U128(f) => Out(oq(f(q(x))), 0),
            Call::B16(f) => Out(oh(f(h(x), h(y))), 0),
            Call::B32(f) => Out(os(f(s(x), s(y))), 0),
            Call::B64(f) => Out(od(f(d(x), d(y))), 0),
            Call::B128(f) => Out(oq(f(q(x), q(y))), 0),
            Call::T32(f) => Out(os(f(s(x), s(y), s(z))), 0),
            Call::T64(f) => Out(od(f(d(x), d(y), d(z))), 0),
            Call::T128(f) => Out(oq(f(q(x), q(y), q(z))), 0),
            Call::FI16(f) => Out(oh(f(h(x), i(y))), 0),
            Call::FI32(f) => Out(os(f(s(x), i(y))), 0),
            Call::FI64(f) => Out(od(f(d(x), i(y))), 0),
            Call::FI128(f) => Out(oq(f(q(x), i(y))), 0),
            Call::IF32(f) => Out(os(f(i(x), s(y))), 0),
            Call::IF64(f) => Out(od(f(i(x), d(y))), 0),
            Call::PP32(f) => { let r = f(s(x)); Out(os(r.0), os(r.1)) }
            Call::PP64(f) => { let r = f(d(x)); Out(od(r.0), od(r.1)) }
            Call::PI32(f) => { let r = f(s(x)); Out(os(r.0), oi(r.1)) }
            Call::PI64(f) => { let r = f(d(x)); Out(od(r.0), oi(r.1)) }
            Call::I32(f) => Out(oi(f(s(x))), 0),
            Call::I64(f) => Out(oi(f(d(x))), 0),
            Call::Q32(f) => { let r = f(s(x), s(y)); Out(os(r.0), oi(r.1)) }
            Call::Q64(f) => { let r = f(d(x), d(y)); Out(od(r.0), oi(r.1)) }
        }
    }
    pub fn show_in(&self, a: &[u128; 3]) -> String {
        self.args.iter().zip(a).map(|(t, b)| t.show(*b)).collect::<Vec<_>>().join(", ")
    }
    pub fn show_out(&self, o: &Out) -> String {
        let mut v = vec![self.res[0].show(o.0)];
        if self.res.len() > 1 { v.push(self.res[1].show(o.1)); }
        v.join(", ")
    }
    /// Result equality in which every NaN is the same value.
    pub fn same(&self, a: &Out, b: &Out) -> bool {
        let eq = |t: Ty, x: u128, y: u128| x == y || (t.is_nan(x) && t.is_nan(y));
        eq(self.res[0], a.0, b.0) && (self.res.len() < 2 || eq(self.res[1], a.1, b.1))
    }
}

impl Lib {
    pub fn funcs(&self) -> Vec<Func> {
        use Ty::*;
        let mut v = vec![];
        macro_rules! add { ($f:ident, $c:ident, $a:expr, $r:expr) => {
            for (n, f) in self.$f { v.push(Func { name: n, args: &$a, res: &$r, call: Call::$c(*f) }); }
        } }
        add!(u16, U16, [F16], [F16]); add!(u32, U32, [F32], [F32]); add!(u64, U64, [F64], [F64]); add!(u128, U128, [F128], [F128]);
        add!(b16, B16, [F16, F16], [F16]); add!(b32, B32, [F32, F32], [F32]); add!(b64, B64, [F64, F64], [F64]); add!(b128, B128, [F128, F128], [F128]);
        add!(t32, T32, [F32, F32, F32], [F32]); add!(t64, T64, [F64, F64, F64], [F64]); add!(t128, T128, [F128, F128, F128], [F128]);
        add!(fi16, FI16, [F16, I32], [F16]); add!(fi32, FI32, [F32, I32], [F32]); add!(fi64, FI64, [F64, I32], [F64]); add!(fi128, FI128, [F128, I32], [F128]);
        add!(if32, IF32, [I32, F32], [F32]); add!(if64, IF64, [I32, F64], [F64]);
        add!(pp32, PP32, [F32], [F32, F32]); add!(pp64, PP64, [F64], [F64, F64]);
        add!(pi32, PI32, [F32], [F32, I32]); add!(pi64, PI64, [F64], [F64, I32]);
        add!(i32, I32, [F32], [I32]); add!(i64, I64, [F64], [I32]);
        add!(q32, Q32, [F32, F32], [F32, I32]); add!(q64, Q64, [F64, F64], [F64, I32]);
        v
    }
    pub fn func(&self, n: &str) -> Func {
        self.funcs().into_iter()
            .chain(self.x32.iter().map(|(n, f)| Func { name: n, args: &[Ty::F32], res: &[Ty::F32], call: Call::U32(*f) }))
            .chain(self.x64.iter().map(|(n, f)| Func { name: n, args: &[Ty::F64], res: &[Ty::F64], call: Call::U64(*f) })).find(|f| f.name == n).unwrap_or_else(|| panic!("no function {n}"))
    }
}
