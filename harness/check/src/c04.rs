//! C04: strict decoding against the reference strict decoder.
use crate::common::*;
use crate::docs;
use mc::dec::{R, decode_strict};
use mc::enc;
use mc::run::*;

fn one(cx: &mut Cx, t: &str, indent: usize) {
    let want = decode_strict(t, indent);
    let o = Opt { indent, ..BASE };
    let got = dec(cx, t, &o.o());
    match &want {
        R::Unspec(w) => {
            cx.cat("reading left open");
            let _ = w;
            if is_panic(&got) {
                cx.evals += 1;
                cx.fail(format!("indent={} {:?}", indent, tag(t)), &[("text", tag(t)), ("decoded", show(&got))]);
            }
            return;
        }
        R::Either(_, w) => {
            cx.cat("acceptance left open, reading not");
            let _ = w;
        }
        R::Ok(_) => cx.cat("well-formed"),
        R::Reject(_) => cx.cat("malformed"),
    }
    cx.evals += 1;
    cx.sample(|| format!("indent {} {:?} -> {}", indent, t, match &want { R::Ok(v) => v.json(), R::Either(v, _) => format!("{} or error", v.json()), _ => "error".into() }));
    let ok = match (&want, &got) {
        (R::Ok(v), Ok(w)) => v.same_ordered(w),
        (R::Either(v, _), Ok(w)) => v.clone().dedup().same(&w.clone().dedup()),
        (R::Either(..), Err(e)) => !e.starts_with("PANIC"),
        (R::Reject(_), Err(e)) => !e.starts_with("PANIC"),
        _ => false,
    };
    if let R::Ok(v) = &want {
        cx.outcome(&v.json());
    }
    if !ok {
        cx.fail(
            format!("indent={} {:?}", indent, tag(t)),
            &[
                ("text", tag(t)),
                ("options", o.s()),
                ("expected", match &want { R::Ok(v) => v.json(), R::Reject(r) => format!("error: {}", r), R::Either(v, w) => format!("{} (or an error: {})", v.json(), w), _ => String::new() }),
                ("decoded", tag(&show(&got))),
            ],
        );
    }
}

pub fn spec(th: bool) -> Spec {
    let mut fams: Vec<Fam> = docs::families(th)
        .into_iter()
        .map(|d| {
            let g = d.r#gen.clone();
            Fam::new(&d.name, d.n, &d.what, move |i, cx| {
                let Some((t, ind)) = g(i) else {
                    cx.skip();
                    return;
                };
                one(cx, &t, ind);
            })
        })
        .collect();
    // reference-encoded values, uniform and mixed delimiters, any decode delimiter option
    for vd in docs::value_docs(th) {
        let g = vd.r#gen.clone();
        let opts: Vec<_> = vd.opts.iter().map(|o| (*o, o.o())).collect();
        let mixes = vd.mixes.clone();
        fams.push(Fam::new(&format!("enc-{}", vd.name), vd.n, &format!("canonical text of: {}; and with every array declaring a delimiter of its own", vd.what), move |i, cx| {
            let v = g(i);
            let check = |cx: &mut Cx, t: &str, o: &toon::Options, w: String| {
                let r = dec(cx, t, o);
                cx.evals += 1;
                cx.cat("canonical");
                if !matches!(&r, Ok(x) if x.same(&v)) {
                    cx.fail(format!("{} {}", w, tag(t)), &[("options", w), ("text", tag(t)), ("expected", tag(&v.json())), ("decoded", tag(&show(&r)))]);
                }
            };
            for (o, _) in &opts {
                let t = enc::encode(&v, o.e());
                cx.outcome(&t);
                check(cx, &t, &Opt { delim: DELIMS[(i % 3) as usize], ..*o }.o(), o.s());
            }
            for m in &mixes {
                let ind = INDENTS[(*m as usize / 5) % 5];
                let t = docs::mixed(&v, *m, ind);
                check(cx, &t, &Opt { delim: DELIMS[(m % 3) as usize], indent: ind, ..BASE }.o(), format!("mixed={} indent={}", m, ind));
            }
        }));
    }
    Spec {
        id: "C04".into(),
        level: "model_checking",
        rule: "state = one document of the bounded spaces (or one value in canonical text); the reference strict decoder says value, reject or unspecified; strict decoding must agree wherever the reference commits itself".into(),
        fams,
        assumptions: vec![
            "documents whose reading the format or its legacy extensions leave open (odd unquoted keys or tokens, CR, trailing white space, legacy '@' tables, depth jumps) are only required not to panic; their share is reported under outcome_classes".into(),
        ],
    }
}
