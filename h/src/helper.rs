//! C18: the methods of Libm<T> are the functions of the crate.
use crate::common::*;
use crate::gen_::*;
use crate::helper_table::METHODS;
use crate::lib_table::*;
use crate::mon::*;

pub fn check(m: &Mon, src: &Source, l: &Lib) {
    m.rule("Every method of Libm<f16>, Libm<f32>, Libm<f64> and Libm<f128> is called with the same arguments as the function it stands for and all result bits are compared (any NaN equal to any NaN). The pairing of methods and functions is fixed in the harness. A case is one argument tuple of one method.");
    let tab = l.funcs();
    let args = Args::new(src, &tab);
    let n: u64 = if m.thorough { 10_000_000 } else { 1_000_000 };
    let per = 4096u64;
    let mut jobs = vec![];
    for i in 0..METHODS.len() {
        let f = l.func(METHODS[i].2);
        for k in 0..(n / weight(&f)).div_ceil(per) { jobs.push((i, f, k)); }
    }
    par(jobs.len(), |j| {
        if m.too_many() { return; }
        let (i, f, k) = jobs[j];
        let (ty, name, _, call) = METHODS[i];
        let h = Func { call, ..f };
        let t = tag(f.name) ^ tag(ty).rotate_left(9) ^ tag(name).rotate_left(20);
        let mut g = args.generator(&f, Rng::new(m.seed ^ t ^ 0xc18, k));
        for _ in 0..per {
            let a = tuple(&f, &mut g, 100);
            m.seen(t, a[0], a[1], a[2]);
            cur(&f, &a);
            let (o, p) = (h.run(&a), f.run(&a));
            if !f.same(&o, &p) { m.violation(&f, "default", &a, format!("Libm::<{ty}>::{name} gives {}, {} gives {}", f.show_out(&o), f.name, f.show_out(&p))); }
        }
        m.evals(per);
    });
    m.stat("methods", METHODS.len().to_string());
    for i in [0, 50, 100, 130, 160] {
        if let Some((ty, name, f, _)) = METHODS.get(i) { m.sample(format!("Libm::<{ty}>::{name} against {f}")); }
    }
}
