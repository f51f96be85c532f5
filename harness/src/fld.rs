//! C01: register programs over one coefficient field.
use crate::coef::{dec_opt, Coef};
use crate::json::{bad, Val};
use crate::{with_cf, Rec};

pub fn run(case: &Val, rec: &Rec) {
    with_cf!(case.at("p").int(), C => go::<C>(case, rec))
}

fn go<C: Coef>(case: &Val, rec: &Rec) {
    let mut regs: Vec<Option<C>> = vec![];
    for e in case.at("ev").arr() {
        let reg = |k: &str| regs[e.at(k).us() - 1];
        let op = e.at("op").str();
        let absent = match op {
            "one" | "lit" => false,
            "add" | "mul" | "eq" => reg("a").is_none() || reg("b").is_none(),
            "addo" | "neg" | "inv" => reg("a").is_none(),
            o => bad(o),
        };
        if absent {
            let mut e = e.clone();
            e.set("na", Val::B(true));
            rec.res(&e, C::zero());
            regs.push(None);
            continue;
        }
        let r: Option<C> = match op {
            "one" => Some(C::one()),
            "lit" => Some(C::enc(e.at("v"))),
            "add" => reg("a").unwrap() + reg("b").unwrap(),
            "addo" => reg("a").unwrap() + reg("b"),
            "mul" => Some(reg("a").unwrap() * reg("b").unwrap()),
            "neg" => Some(reg("a").unwrap().additive_inverse()),
            "inv" => Some(reg("a").unwrap().mult_inverse()),
            "eq" => {
                let r = reg("a").unwrap() == reg("b").unwrap();
                let s = reg("a").unwrap() != reg("b").unwrap();
                rec.res(e, Val::A(vec![Val::B(r), Val::B(s)]));
                regs.push(None);
                continue;
            }
            _ => unreachable!(),
        };
        rec.res(e, dec_opt(r));
        regs.push(r);
    }
}
