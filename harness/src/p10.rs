//! Operator runs against an independent precedence-climbing reader
//! (executable side of verus/operators.rs).
use crate::src::Src;
use crate::{ck, contracts, pre};
use eucalypt::common::sourcemap::{HasSmid, Smid, SourceMap};
use eucalypt::core::binding::Var;
use eucalypt::core::cook;
use eucalypt::core::expr::*;

#[derive(Clone, Debug)]
enum T {
    Leaf(RcExpr),
    Un(RcExpr, Box<T>),
    Bin(RcExpr, Box<T>, Box<T>),
}
fn op(x: &RcExpr) -> Option<(Fixity, i32, RcExpr)> {
    match &*x.inner {
        Expr::Operator(_, f, p, b) => Some((*f, *p, b.clone())),
        _ => None,
    }
}
fn takes_left(x: &RcExpr) -> bool {
    matches!(op(x), Some((Fixity::InfixLeft | Fixity::InfixRight | Fixity::UnaryPostfix, _, _)))
}
fn takes_right(x: &RcExpr) -> bool {
    matches!(op(x), Some((Fixity::InfixLeft | Fixity::InfixRight | Fixity::UnaryPrefix, _, _)))
}
fn gap(l: Option<&RcExpr>, r: Option<&RcExpr>) -> Option<Result<RcExpr, ()>> {
    let open = l.map_or(true, takes_right);
    let wanted = r.map_or(true, takes_left);
    let place = |x: Option<&RcExpr>| x.map(|e| e.smid()).filter(|s| s.is_valid());
    match (open, wanted) {
        (false, false) => Some(Ok(RcExpr::from(Expr::Operator(Smid::default(), Fixity::InfixLeft, 20, RcExpr::from(Expr::ErrPseudoCat))))),
        (true, true) => Some(match (place(l), place(r)) {
            (_, Some(s)) => Ok(RcExpr::from(Expr::ExprAnaphor(s, Anaphor::Implicit(s, ImplicitAnaphorSide::Left)))),
            (Some(s), _) => Ok(RcExpr::from(Expr::ExprAnaphor(s, Anaphor::Implicit(s, ImplicitAnaphorSide::Right)))),
            _ => Err(()),
        }),
        _ => None,
    }
}
/// The run with its gaps filled, unless one cannot be.
fn whole(xs: &[RcExpr]) -> Option<Vec<RcExpr>> {
    let mut out = vec![];
    for i in 0..=xs.len() {
        let l = if i == 0 { None } else { Some(&xs[i - 1]) };
        if let Some(g) = gap(l, xs.get(i)) {
            out.push(g.ok()?);
        }
        out.extend(xs.get(i).cloned());
    }
    Some(out)
}
fn holds(first: &RcExpr, second: &RcExpr) -> bool {
    let (f, p, _) = op(first).unwrap();
    let q = op(second).unwrap().1;
    q < p || (q == p && f == Fixity::InfixLeft)
}
fn climb(xs: &[RcExpr], at: &mut usize, under: Option<&RcExpr>) -> T {
    let x = xs[*at].clone();
    *at += 1;
    let mut t = match op(&x) {
        None => T::Leaf(x),
        Some((Fixity::Nullary, _, b)) => T::Leaf(b),
        Some((_, _, b)) => T::Un(b, Box::new(climb(xs, at, Some(&x)))),
    };
    while let Some(o) = xs.get(*at).cloned() {
        if under.map_or(false, |u| holds(u, &o)) {
            break;
        }
        *at += 1;
        let b = op(&o).unwrap().2;
        t = if takes_right(&o) { T::Bin(b, Box::new(t), Box::new(climb(xs, at, Some(&o)))) } else { T::Un(b, Box::new(t)) };
    }
    t
}
fn app(f: RcExpr, xs: Vec<RcExpr>) -> RcExpr {
    RcExpr::from(Expr::App(Smid::default(), f, xs))
}
/// What a grouping stands for; nothing where a call has no arguments to take.
fn means(t: &T) -> Option<RcExpr> {
    Some(match t {
        T::Leaf(e) => e.clone(),
        T::Un(b, x) => app(b.clone(), vec![means(x)?]),
        T::Bin(b, l, r) => {
            let (l, r) = (means(l)?, means(r)?);
            match &*b.inner {
                Expr::ErrPseudoCall => match &*r.inner {
                    Expr::ArgTuple(_, xs) => app(l, xs.clone()),
                    _ => return None,
                },
                Expr::ErrPseudoDot => match &*r.inner {
                    Expr::Name(_, n) => RcExpr::from(Expr::Lookup(Smid::default(), l, n.clone(), None)),
                    Expr::Lam(..) => app(r, vec![l]),
                    _ => r,
                },
                Expr::ErrPseudoCat => app(r, vec![l]),
                _ => app(b.clone(), vec![l, r]),
            }
        }
    })
}
fn read(xs: &[RcExpr]) -> Option<RcExpr> {
    let mut at = 0;
    let t = climb(xs, &mut at, None);
    assert_eq!(at, xs.len());
    means(&t)
}
fn all(a: &[RcExpr], b: &[RcExpr]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y))
}
/// The same expression, wherever it is placed in the source.
fn same(a: &RcExpr, b: &RcExpr) -> bool {
    match (&*a.inner, &*b.inner) {
        (Expr::Var(_, Var::Free(x)), Expr::Var(_, Var::Free(y))) => x == y,
        (Expr::Var(_, Var::Bound(x)), Expr::Var(_, Var::Bound(y))) => (x.scope, x.binder) == (y.scope, y.binder),
        (Expr::Intrinsic(_, x), Expr::Intrinsic(_, y)) => x == y,
        (Expr::Literal(_, x), Expr::Literal(_, y)) => x == y,
        (Expr::Name(_, x), Expr::Name(_, y)) => x == y,
        (Expr::ExprAnaphor(s, x), Expr::ExprAnaphor(t, y)) => x == y && s == t,
        (Expr::Lookup(_, x, n, None), Expr::Lookup(_, y, m, None)) => n == m && same(x, y),
        (Expr::ArgTuple(_, x), Expr::ArgTuple(_, y)) | (Expr::List(_, x), Expr::List(_, y)) => all(x, y),
        (Expr::App(_, f, x), Expr::App(_, g, y)) => same(f, g) && all(x, y),
        (Expr::Lam(_, _, x), Expr::Lam(_, _, y)) => x.pattern.len() == y.pattern.len() && same(&x.body, &y.body),
        (Expr::Let(_, x, _), Expr::Let(_, y, _)) => {
            x.pattern.len() == y.pattern.len() && x.pattern.iter().zip(&y.pattern).all(|(p, q)| p.name == q.name && same(&p.expr, &q.expr)) && same(&x.body, &y.body)
        }
        (Expr::Operator(s, f, p, x), Expr::Operator(t, g, q, y)) => (s, f, p) == (t, g, q) && same(x, y),
        (x, y) => std::mem::discriminant(x) == std::mem::discriminant(y) && matches!(x, Expr::ErrPseudoCall | Expr::ErrPseudoDot | Expr::ErrPseudoCat),
    }
}

struct G<'a, S: Src> {
    s: &'a mut S,
    n: u32,
    placed: bool,
}
const PRECS: [i32; 7] = [5, 20, 50, 50, 80, 90, 95];
impl<'a, S: Src> G<'a, S> {
    fn smid(&mut self) -> Smid {
        self.n += 1;
        if !self.placed && self.s.below(6) == 0 { Smid::default() } else { Smid::from(self.n) }
    }
    fn operand(&mut self) -> RcExpr {
        let s = self.smid();
        match self.s.below(8) {
            0 => core::num(s, self.n as i64),
            1 => RcExpr::from(Expr::Name(s, format!("n{}", self.n % 4))),
            2 => RcExpr::from(Expr::Lam(s, false, eucalypt::core::binding::Scope { pattern: vec!["p".into()], body: core::num(s, self.n as i64) })),
            3 => RcExpr::from(Expr::List(s, vec![core::num(s, self.n as i64)])),
            _ => core::var(s, format!("v{}", self.n % 8)),
        }
    }
    /// An operand that may hold runs of its own, or be an anaphor.
    fn deep(&mut self, depth: u64, kinds: u64) -> RcExpr {
        let s = self.smid();
        match self.s.below(9) {
            0 | 1 if kinds & 1 != 0 => RcExpr::from(Expr::ExprAnaphor(s, Anaphor::ExplicitAnonymous(s))),
            0 | 2 if kinds & 2 != 0 => RcExpr::from(Expr::ExprAnaphor(s, Anaphor::ExplicitNumbered(self.s.below(4) as i32))),
            3 | 4 if depth > 0 => self.nested(depth - 1, kinds),
            5 if depth > 0 => {
                let n = self.s.below(3);
                let xs = (0..n).map(|_| self.nested(depth - 1, kinds)).collect();
                RcExpr::from(Expr::List(s, xs))
            }
            6 if kinds & 8 != 0 => RcExpr::from(Expr::BlockAnaphor(s, Anaphor::ExplicitAnonymous(s))),
            _ => core::var(s, format!("v{}", self.n % 8)),
        }
    }
    /// A run of operands like that.
    fn nested(&mut self, depth: u64, kinds: u64) -> RcExpr {
        let n = self.s.below(4);
        let mut xs = vec![];
        if kinds & 4 == 0 || self.s.below(4) != 0 {
            xs.push(self.deep(depth, kinds));
        }
        for i in 0..n {
            match self.s.below(6) {
                0 if !xs.is_empty() => {
                    let m = self.s.below(3);
                    let ys = (0..m).map(|_| self.nested(depth.saturating_sub(1), kinds)).collect();
                    xs.push(RcExpr::from(Expr::Operator(Smid::default(), Fixity::InfixLeft, 90, RcExpr::from(Expr::ErrPseudoCall))));
                    let s = self.smid();
                    xs.push(RcExpr::from(Expr::ArgTuple(s, ys)));
                }
                1 => xs.push(self.deep(depth, kinds)),
                _ => {
                    xs.push(self.operator(true, true));
                    if kinds & 4 == 0 || i + 1 < n || self.s.below(4) != 0 {
                        xs.push(self.deep(depth, kinds));
                    }
                }
            }
        }
        if xs.is_empty() {
            xs.push(self.operator(true, true));
        }
        core::soup(Smid::default(), xs)
    }
    fn operator(&mut self, left: bool, right: bool) -> RcExpr {
        let s = self.smid();
        let p = PRECS[self.s.below(7) as usize];
        let f = match (left, right) {
            (false, false) => Fixity::Nullary,
            (false, true) => Fixity::UnaryPrefix,
            (true, false) => Fixity::UnaryPostfix,
            _ if self.s.bool() => Fixity::InfixLeft,
            _ => Fixity::InfixRight,
        };
        RcExpr::from(Expr::Operator(s, f, p, core::var(s, format!("o{}", self.n))))
    }
    /// A run; gaps in one of every few.
    fn run(&mut self) -> Vec<RcExpr> {
        let len = 1 + self.s.below(12);
        let gaps = self.s.below(3) == 0;
        let mut have = false;
        let mut out: Vec<RcExpr> = vec![];
        for _ in 0..len {
            if gaps && self.s.below(5) == 0 {
                have = !have;
            }
            if !have {
                match self.s.below(6) {
                    0 => out.push(self.operator(false, true)),
                    1 => {
                        out.push(self.operator(false, false));
                        have = true;
                    }
                    _ => {
                        out.push(self.operand());
                        have = true;
                    }
                }
            } else {
                match self.s.below(9) {
                    0 => out.push(self.operator(true, false)),
                    1 => {
                        let x = self.operand();
                        let s = self.smid();
                        out.push(RcExpr::from(Expr::Operator(Smid::default(), Fixity::InfixLeft, 90, RcExpr::from(Expr::ErrPseudoCall))));
                        out.push(RcExpr::from(Expr::ArgTuple(s, vec![x])));
                    }
                    2 => {
                        out.push(RcExpr::from(Expr::Operator(Smid::default(), Fixity::InfixLeft, 90, RcExpr::from(Expr::ErrPseudoDot))));
                        let x = self.operand();
                        out.push(x);
                    }
                    3 => {
                        // side by side
                        let x = self.operand();
                        out.push(x);
                    }
                    _ => {
                        out.push(self.operator(true, true));
                        have = false;
                    }
                }
            }
        }
        if !have && !gaps {
            let x = self.operand();
            out.push(x);
        }
        out
    }
}
fn show(xs: &[RcExpr]) -> String {
    let one = |x: &RcExpr| match &*x.inner {
        Expr::Operator(_, f, p, b) => match &*b.inner {
            Expr::ErrPseudoCall => "call".to_string(),
            Expr::ErrPseudoDot => "dot".to_string(),
            Expr::ErrPseudoCat => "cat".to_string(),
            Expr::Var(_, Var::Free(n)) => format!("{n}:{f}:{p}"),
            _ => "op".to_string(),
        },
        Expr::Var(_, Var::Free(n)) | Expr::Name(_, n) => n.clone(),
        _ => "x".to_string(),
    };
    xs.iter().map(one).collect::<Vec<_>>().join(" ")
}

/// What a nest of runs is cooked to: `Err(true)` if kinds of anaphora are
/// mixed, `Err(false)` outside the contract.
fn nest(e: &RcExpr, scope: bool, pend: &mut Vec<Anaphor<Smid, i32>>) -> Result<RcExpr, bool> {
    let mut each = |xs: &[RcExpr], scope: bool| xs.iter().map(|x| nest(x, scope, pend)).collect::<Result<Vec<_>, bool>>();
    Ok(match &*e.inner {
        Expr::Soup(_, xs, _) => {
            let filled = whole(xs).ok_or(false)?;
            let here = filled.iter().any(|x| matches!(&*x.inner, Expr::ExprAnaphor(..)));
            let body = read(&each(&filled, scope || here)?).ok_or(false)?;
            if scope || !here {
                return Ok(body);
            }
            let found = std::mem::take(pend);
            let kind = |a: &Anaphor<Smid, i32>| std::mem::discriminant(a);
            if found.iter().any(|a| kind(a) != kind(&found[0])) {
                return Err(true);
            }
            let params: Vec<String> = match found[0] {
                Anaphor::ExplicitNumbered(_) => {
                    let most = found.iter().filter_map(|a| a.number()).max().unwrap();
                    (0..=most).map(|i| format!("gap {}", Anaphor::<Smid, i32>::ExplicitNumbered(i))).collect()
                }
                _ => found.iter().map(|a| format!("gap {a}")).collect(),
            };
            core::lam(Smid::default(), params, body)
        }
        Expr::ExprAnaphor(_, a) => {
            if !pend.contains(a) {
                pend.push(*a);
            }
            core::var(Smid::default(), format!("gap {a}"))
        }
        Expr::BlockAnaphor(_, a) => core::var(Smid::default(), format!("block {a}")),
        Expr::ArgTuple(s, xs) => RcExpr::from(Expr::ArgTuple(*s, each(xs, scope)?)),
        Expr::List(s, xs) => RcExpr::from(Expr::List(*s, each(xs, scope)?)),
        _ => e.clone(),
    })
}

contracts! {
    /// A run is read as its precedences and fixities say, gaps filled.
    fn grouping(s) {
        let xs = G { s, n: 0, placed: false }.run();
        let filled = whole(&xs);
        let got = cook::fill::fill_gaps(&xs);
        ck!(got.is_ok() == filled.is_some(), "fill of {}: {}", show(&xs), got.is_ok());
        pre!(filled.is_some());
        let filled = filled.unwrap();
        ck!(all(&got.unwrap().0, &filled), "gaps of {}", show(&xs));
        let want = read(&filled);
        pre!(want.is_some());
        for run in [&xs, &filled] {
            let got = cook::shunt::shunt(run.clone(), &mut SourceMap::new());
            ck!(got.is_ok(), "{} is refused", show(run));
            ck!(same(&got.unwrap(), want.as_ref().unwrap()), "{} is read wrongly", show(run));
        }
    }

    /// Each gap is a parameter, in order; in a bracket each group is an item.
    fn sections(s) {
        let xs = G { s, n: 0, placed: true }.run();
        let filled = whole(&xs);
        pre!(filled.is_some());
        let mut filled = filled.unwrap();
        pre!(read(&filled).is_some());
        let mut names = vec![];
        for x in filled.iter_mut() {
            if let Expr::ExprAnaphor(..) = &*x.inner {
                names.push(format!("gap{}", names.len()));
                *x = core::var(Smid::default(), names.last().unwrap().clone());
            }
        }
        let abs = |e: RcExpr| if names.is_empty() { e } else { core::lam(Smid::default(), names.clone(), e) };
        let got = cook::cook(core::soup(Smid::default(), xs.clone()), &mut SourceMap::new());
        ck!(got.is_ok(), "{} is refused", show(&xs));
        ck!(same(&got.unwrap(), &abs(read(&filled).unwrap())), "{} is read wrongly", show(&xs));
        let mut items = vec![];
        for g in filled.split(|x| matches!(op(x), Some((_, _, b)) if matches!(&*b.inner, Expr::ErrPseudoCat))) {
            if !g.is_empty() {
                let i = read(g);
                pre!(i.is_some());
                items.push(i.unwrap());
            }
        }
        let got = cook::cook(RcExpr::from(Expr::Soup(Smid::default(), xs.clone(), true)), &mut SourceMap::new());
        ck!(got.is_ok(), "bracket {} is refused", show(&xs));
        ck!(same(&got.unwrap(), &abs(RcExpr::from(Expr::List(Smid::default(), items)))), "bracket {} is read wrongly", show(&xs));
    }

    /// The anaphora of nested runs belong to the outermost that has any itself.
    fn anaphora(s) {
        let kinds = [1, 2, 4, 5, 6, 7, 3, 0][s.below(8) as usize];
        let e = G { s, n: 0, placed: true }.nested(3, kinds);
        let want = nest(&e, false, &mut vec![]);
        pre!(want != Err(false));
        let got = cook::cook(e.clone(), &mut SourceMap::new());
        ck!(got.is_ok() == want.is_ok(), "{} for {:?}", if got.is_ok() { "mixed anaphora accepted" } else { "refused" }, e);
        if let (Ok(g), Ok(w)) = (got, want) {
            ck!(same(&g, &w), "read wrongly: {:?}", e);
        }
    }

    /// The anaphora of runs in a block are the runs', those of the block its own.
    fn blocks(s) {
        let mut g = G { s, n: 0, placed: true };
        let n = 2 + g.s.below(3);
        let kinds = 8 + [1, 4, 0, 2][g.s.below(4) as usize];
        let values: Vec<RcExpr> = (0..n).map(|_| g.nested(2, kinds)).collect();
        let made = |vs: &[RcExpr]| core::let_(Smid::default(), vs.iter().enumerate().map(|(i, v)| (format!("v{i}"), v.clone())).collect(), core::var(Smid::default(), "v0".to_string()));
        let e = made(&values);
        let mut want = vec![];
        for v in &values {
            let w = nest(v, false, &mut vec![]);
            pre!(w.is_ok());
            want.push(w.unwrap());
        }
        fn blocks(e: &RcExpr, out: &mut Vec<String>) {
            match &*e.inner {
                Expr::Soup(_, xs, _) | Expr::ArgTuple(_, xs) | Expr::List(_, xs) => xs.iter().for_each(|x| blocks(x, out)),
                Expr::BlockAnaphor(_, a) => out.push(format!("block {a}")),
                _ => (),
            }
        }
        let mut params = vec![];
        values.iter().for_each(|v| blocks(v, &mut params));
        let want = if params.is_empty() { made(&want) } else { core::lam(Smid::default(), params, made(&want)) };
        let got = cook::cook(e, &mut SourceMap::new());
        ck!(got.is_ok(), "refused: {:?}", values);
        ck!(same(&got.unwrap(), &want), "read wrongly: {:?}", values);
    }

    /// An operator has the fixity of its innermost definition in scope.
    fn definitions(s) {
        let mut g = G { s, n: 0, placed: true };
        // what each of four names is, outside and inside
        let outer: Vec<RcExpr> = (0..4).map(|_| { let (l, r) = (g.s.bool(), g.s.bool()); g.operator(l, r) }).collect();
        let inner: Vec<Option<RcExpr>> = (0..4).map(|_| if g.s.below(3) == 0 { let (l, r) = (g.s.bool(), g.s.bool()); Some(g.operator(l, r)) } else { None }).collect();
        let plain = g.run();
        // operators of the run are replaced by uses of names, where one has their fixity
        let mut build = |scope: &dyn Fn(usize) -> RcExpr, s: &mut S| -> (Vec<RcExpr>, Vec<RcExpr>) {
            let (mut used, mut known) = (vec![], vec![]);
            for x in &plain {
                let (mut u, mut k) = (x.clone(), x.clone());
                if let (Some((f, _, _)), true) = (op(x), x.smid().is_valid()) {
                    let from = s.below(4) as usize;
                    for j in 0..4 {
                        let i = (from + j) % 4;
                        let d = scope(i);
                        if let Some((df, p, _)) = op(&d) {
                            if df == f {
                                u = core::var(x.smid(), format!("op{i}"));
                                k = RcExpr::from(Expr::Operator(x.smid(), f, p, u.clone()));
                                break;
                            }
                        }
                    }
                }
                used.push(u);
                known.push(k);
            }
            (used, known)
        };
        let within = |i: usize| inner[i].clone().unwrap_or(outer[i].clone());
        let without = |i: usize| outer[i].clone();
        let (used_in, known_in) = build(&within, g.s);
        let (used_out, known_out) = build(&without, g.s);
        let d = Smid::default();
        let cooked = |xs: &[RcExpr]| cook::cook(core::soup(d, xs.to_vec()), &mut SourceMap::new());
        for k in [&known_in, &known_out] {
            let f = whole(k);
            pre!(f.is_some());
            pre!(read(&f.unwrap()).is_some());
        }
        let make = |strip: bool, body_in: RcExpr, body_out: RcExpr| -> RcExpr {
            let def = |o: &RcExpr| if strip { op(o).unwrap().2 } else { o.clone() };
            let mut ins: Vec<(String, RcExpr)> = inner.iter().enumerate().filter_map(|(i, o)| o.as_ref().map(|o| (format!("op{i}"), def(o)))).collect();
            ins.push(("y".into(), body_in.clone()));
            let mut outs: Vec<(String, RcExpr)> = outer.iter().enumerate().map(|(i, o)| (format!("op{i}"), def(o))).collect();
            outs.push(("z".into(), body_out));
            core::let_(d, outs, core::let_(d, ins, body_in))
        };
        let soup = |xs: Vec<RcExpr>| core::soup(d, xs);
        let got = cook::cook(make(false, soup(used_in.clone()), soup(used_out.clone())), &mut SourceMap::new());
        let want = make(true, cooked(&known_in).unwrap(), cooked(&known_out).unwrap());
        ck!(got.is_ok(), "refused");
        ck!(same(&got.unwrap(), &want), "in scope: {}; out: {}", show(&known_in), show(&known_out));
    }
}
