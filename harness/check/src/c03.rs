//! C03: the encoder's text equals the reference encoder's text.
use crate::c02;
use crate::common::*;
use mc::enc::{encode, has_grey};
use mc::run::*;
use mc::space;
use mc::val::J;

fn one(cx: &mut Cx, v: &J, o: &Opt, oo: &toon::Options) {
    if has_grey(v, o.delim) {
        cx.cat("skipped: contains a string whose quoting is left open");
        return;
    }
    let want = encode(v, o.e());
    let got = enc(cx, v, oo);
    cx.evals += 1;
    cx.outcome(&want);
    cx.sample(|| format!("{} {} -> {:?}", o.s(), v.json(), want));
    if !matches!(&got, Ok(g) if *g == want) {
        cx.fail(
            format!("{} {}", o.s(), tag(&v.json())),
            &[("options", o.s()), ("value", tag(&v.json())), ("expected", tag(&want)), ("encoded", tag(&shows(&got)))],
        );
    }
}

pub fn spec(th: bool) -> Spec {
    let mut fams: Vec<Fam> = space::families(th)
        .into_iter()
        .map(|vf| {
            let lay: Vec<_> = layouts(vf.size).into_iter().map(|o| (o, o.o())).collect();
            let g = vf.r#gen.clone();
            Fam::new(vf.name, vf.n, &vf.what, move |i, cx| {
                let v = g(i);
                for (o, oo) in &lay {
                    one(cx, &v, o, oo);
                }
            })
        })
        .collect();
    for (name, n, what, size, g) in c02::values(th) {
        let lay: Vec<_> = c02::fold_opts(size).into_iter().map(|o| (o, o.o())).collect();
        fams.push(Fam::new(&format!("fold-{}", name), n, &format!("with key folding: {}", what), move |i, cx| {
            let v = g(i);
            for (o, oo) in &lay {
                one(cx, &v, o, oo);
            }
        }));
    }
    // the indentation step may be any width: widths from 1 to 40 on a value with every construct
    fams.push(Fam::new("widths", 40 * 3 * 8, "every indentation width 1..40, 3 delimiters, 8 container kinds around a value with every construct", move |i, cx| {
        let v = space::wrap(space::place(space::place_key("k", 3), 14), (i % 8) as usize);
        let o = Opt { delim: DELIMS[(i / 8 % 3) as usize], indent: (i / 24) as usize + 1, ..BASE };
        one(cx, &v, &o, &o.o());
        let o = Opt { fold: Some(None), ..o };
        one(cx, &v, &o, &o.o());
    }));
    Spec {
        id: "C03".into(),
        level: "model_checking",
        rule: "state = one JSON value; for every layout and folding setting the encoder's text equals the reference encoder's text byte for byte; values with a string whose quoting the rules leave open are skipped and counted".into(),
        fams,
        assumptions: vec!["the reference encoder (harness/core/src/enc.rs) states the TOON v3 layout; it is itself validated against the repository's own conformance expectations by agreeing with the encoder on all states".into()],
    }
}
