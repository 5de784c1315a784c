//! One entry per function that libm-macros enumerates, with the generic monitors instantiated.
use libm_test::{Identifier, MathOp};

use crate::gen_::Source;
use crate::lib_table::*;
use crate::mon::Mon;
use crate::conv::*;

pub struct Ctx<'a> { pub m: &'static Mon, pub src: &'a Source, pub f: Func, pub n: u64 }

pub struct Op {
    pub name: &'static str,
    pub id: Identifier,
    pub id_name: &'static str,
    pub base: &'static str,
    pub fty: Ty,
    pub args: Vec<Ty>,
    pub rets: Vec<Ty>,
    pub mp: fn(&Ctx),
    pub validate: fn(&Ctx),
    pub routine: fn(&Ctx),
    pub edges: fn(&Ctx),
    pub spaced: fn(&Ctx),
    pub random: fn(&Ctx),
    pub random_hash: fn() -> u64,
    pub list: fn(&Ctx),
}

pub trait FloatKind { const TY: Ty; }
impl<T: Prim> FloatKind for T { const TY: Ty = T::TY; }

macro_rules! op {
    (fn_name: $n:ident, FTy: $fty:ty, attrs: [$($attr:meta),*], extra: $v:ident,) => {
        {
            type R = libm_test::op::$n::Routine;
            $v.push(Op {
                name: stringify!($n),
                id: <R as MathOp>::IDENTIFIER,
                id_name: <R as MathOp>::NAME,
                base: <R as MathOp>::BASE_NAME.as_str(),
                fty: <$fty as FloatKind>::TY,
                args: <<R as MathOp>::RustArgs as Tup>::tys(),
                rets: <<R as MathOp>::RustRet as Ret>::tys(),
                mp: crate::mp::run::<R>,
                validate: crate::mp::validate::<R>,
                routine: crate::ids::routine::<R>,
                edges: crate::gens::edges::<R>,
                spaced: crate::gens::spaced::<R>,
                random: crate::gens::random::<R>,
                random_hash: crate::gens::hash::<R>,
                list: crate::mp::list::<R>,
            });
        }
    };
}

pub fn all() -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    libm_macros::for_each_function! { callback: op, emit_types: [FTy], extra: v, }
    v
}
