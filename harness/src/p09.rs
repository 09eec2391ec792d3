//! Random programs on the production machine against a call-by-need evaluator
//! over the syntax tree (executable side of verus/machine.rs).
use crate::src::Src;
use crate::{ck, contracts, pre};
use eucalypt::common::sourcemap::Smid;
use eucalypt::eval::bytecode::{encode, BcValue, BytecodeMachine};
use eucalypt::eval::emit::{Emitter, NullEmitter};
use eucalypt::eval::error::ExecutionError;
use eucalypt::eval::machine::intrinsic::{AbiClosure, IntrinsicMachine, StgIntrinsic};
use eucalypt::eval::memory::infotable::InfoTable;
use eucalypt::eval::memory::mutator::MutatorHeapView;
use eucalypt::eval::memory::syntax::{Native as HeapNative, Ref as HeapRef};
use eucalypt::eval::stg::syntax::{dsl, LambdaForm, Native, Ref, StgSyn};
use std::cell::RefCell;
use std::rc::Rc;

const GLOBALS: usize = 48;
const MERGE: usize = 45;
const TICKS: usize = 60_000;

// ── What happened ───────────────────────────────────────────────────

thread_local! {
    static LOG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn kind(e: &ExecutionError) -> String {
    match e {
        ExecutionError::Traced(inner, ..) => kind(inner),
        other => format!("{other:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string(),
    }
}

/// An intrinsic that writes down its operands.
struct Noted(u8);
fn shape(v: &BcValue) -> String {
    match v {
        BcValue::Native(HeapNative::Num(n)) => format!("{n}"),
        BcValue::Native(_) => "native".to_string(),
        BcValue::Closure(c) if c.arity() > 0 => format!("fun{}", c.arity()),
        BcValue::Closure(c) => format!("code{}", if c.update() { "!" } else { "" }),
    }
}
fn number(v: &BcValue) -> i64 {
    match v {
        BcValue::Native(HeapNative::Num(n)) => n.as_i64().unwrap_or(0),
        _ => 0,
    }
}
impl StgIntrinsic for Noted {
    fn name(&self) -> &str {
        "NOTED"
    }
    fn execute(&self, m: &mut dyn IntrinsicMachine, view: MutatorHeapView<'_>, _: &mut dyn Emitter, args: &[HeapRef]) -> Result<(), ExecutionError> {
        let mut line = format!("{}@{:?}", self.0, m.annotation());
        let mut sum = self.0 as i64;
        for a in args {
            let AbiClosure::Byte(v) = m.resolve_closure(view, a)?;
            let v = if self.0 % 4 == 0 {
                match m.force(AbiClosure::Byte(v)) {
                    Ok(c) => {
                        let meta = m.take_stripped_meta().map(|c| shape(&c.expect_byte()));
                        line += &format!(" ={}", meta.unwrap_or_default());
                        c.expect_byte()
                    }
                    Err(e) => {
                        line += &format!(" {}", kind(&e));
                        continue;
                    }
                }
            } else {
                v
            };
            line += &format!(" {}", shape(&v));
            sum = sum.wrapping_mul(3).wrapping_add(number(&v)) % 1000;
        }
        LOG.with(|l| l.borrow_mut().push(line));
        match self.0 {
            2 if !args.is_empty() => {
                let v = m.resolve_closure(view, &args[0])?;
                m.set_result(v)
            }
            3 | 7 => m.tail_apply_global(view, self.0 as usize % 4, args),
            4 => m.return_bool(view, sum % 2 == 0),
            5 => m.return_boxed_num(view, sum.into()),
            6 => m.return_unit(view),
            _ => m.return_native(view, HeapNative::Num(sum.into())),
        }
    }
}
static NOTED: [Noted; 8] = [Noted(0), Noted(1), Noted(2), Noted(3), Noted(4), Noted(5), Noted(6), Noted(7)];

// ── The evaluator ───────────────────────────────────────────────────

type Slot = Rc<RefCell<V>>;
#[derive(Clone)]
enum V {
    N(Native),
    C(Clo),
    Hole,
}
#[derive(Clone)]
struct Clo {
    node: Rc<StgSyn>,
    env: Rc<Fr>,
    arity: u8,
    update: bool,
    note: Smid,
}
struct Fr {
    slots: RefCell<Vec<Slot>>,
    next: Option<Rc<Fr>>,
}
impl Fr {
    fn new(vs: Vec<V>, next: &Rc<Fr>) -> Rc<Fr> {
        Rc::new(Fr { slots: RefCell::new(vs.into_iter().map(|v| Rc::new(RefCell::new(v))).collect()), next: Some(next.clone()) })
    }
    fn slot(&self, i: usize) -> Option<Slot> {
        let n = self.slots.borrow().len();
        if i < n {
            return Some(self.slots.borrow()[i].clone());
        }
        self.next.as_ref()?.slot(i - n)
    }
}
fn clo(node: &Rc<StgSyn>, env: &Rc<Fr>) -> Clo {
    Clo { node: node.clone(), env: env.clone(), arity: 0, update: false, note: Smid::default() }
}
fn form(f: &LambdaForm, env: &Rc<Fr>) -> V {
    V::C(Clo { node: f.body().clone(), env: env.clone(), arity: f.arity(), update: f.update(), note: f.annotation() })
}
/// The node under its annotations.
fn bare(node: &Rc<StgSyn>) -> &Rc<StgSyn> {
    match &**node {
        StgSyn::Ann { body, .. } => bare(body),
        _ => node,
    }
}
type E = &'static str;

struct Eval {
    globals: Rc<Fr>,
    root: Rc<Fr>,
    ann: Smid,
    meta: Option<V>,
    log: Vec<String>,
    fuel: u32,
    depth: u32,
}

/// What an evaluated value is.
enum Is {
    Native(Native),
    Fun(Clo),
    Data(u8, Vec<Ref>, Clo),
    Meta(Ref, Ref, Clo),
}
fn is(v: &V) -> Is {
    match v {
        V::N(n) => Is::Native(n.clone()),
        V::C(c) if c.arity > 0 => Is::Fun(c.clone()),
        V::C(c) => match &**bare(&c.node) {
            StgSyn::Cons { tag, args } => Is::Data(*tag, args.clone(), c.clone()),
            StgSyn::Meta { meta, body } => Is::Meta(meta.clone(), body.clone(), c.clone()),
            _ => unreachable!("evaluated"),
        },
        V::Hole => unreachable!("evaluated"),
    }
}
fn say(v: &V) -> String {
    match v {
        V::N(Native::Num(n)) => format!("{n}"),
        V::N(_) => "native".to_string(),
        V::C(c) if c.arity > 0 => format!("fun{}", c.arity),
        V::C(c) => format!("code{}", if c.update { "!" } else { "" }),
        V::Hole => "code".to_string(),
    }
}
fn num(v: &V) -> i64 {
    match v {
        V::N(Native::Num(n)) => n.as_i64().unwrap_or(0),
        _ => 0,
    }
}

impl Eval {
    /// The slot a reference names.
    fn place(&self, env: &Rc<Fr>, r: &Ref) -> Result<Slot, E> {
        match r {
            Ref::L(i) => env.slot(*i).ok_or("BadEnvironmentIndex"),
            Ref::G(i) => self.globals.slot(*i).ok_or("BadGlobalIndex"),
            Ref::V(n) => Ok(Rc::new(RefCell::new(V::N(n.clone())))),
        }
    }
    fn read(&self, env: &Rc<Fr>, r: &Ref) -> Result<V, E> {
        Ok(self.place(env, r)?.borrow().clone())
    }
    /// Evaluate what a variable names; it is evaluated once.
    fn enter(&mut self, env: &Rc<Fr>, r: &Ref) -> Result<V, E> {
        let slot = self.place(env, r)?;
        let v = slot.borrow().clone();
        let thunk = matches!(&v, V::C(c) if c.update);
        if !thunk {
            return self.whnf(v);
        }
        *slot.borrow_mut() = V::Hole;
        let r = self.whnf(v)?;
        *slot.borrow_mut() = r.clone();
        Ok(r)
    }
    /// As `enter`/`whnf`, for a consumer that does not look at metadata.
    fn past(&mut self, mut v: V) -> Result<V, E> {
        loop {
            match is(&v) {
                Is::Meta(_, body, c) => v = self.enter(&c.env, &body)?,
                _ => return Ok(v),
            }
        }
    }
    /// A whole (sub-)evaluation: nothing consumes the value.
    fn run(&mut self, v: V) -> Result<V, E> {
        let mut v = self.whnf(v)?;
        loop {
            match is(&v) {
                Is::Meta(meta, body, c) => {
                    self.meta = Some(self.read(&c.env, &meta)?);
                    v = self.enter(&c.env, &body)?;
                }
                _ => return Ok(v),
            }
        }
    }
    fn args(&self, env: &Rc<Fr>, args: &[Ref], eager: bool) -> Result<Vec<V>, E> {
        args.iter()
            .map(|r| {
                let later = V::C(clo(&dsl::atom(r.clone()), env));
                let Ref::L(_) = r else { return Ok(later) };
                match self.read(env, r) {
                    Ok(v) if eager => Ok(v),
                    Ok(V::C(c)) if !c.update && (c.arity > 0 || matches!(&**bare(&c.node), StgSyn::Atom { .. })) => Ok(V::C(c)),
                    Ok(_) => Ok(later),
                    Err(e) => if eager { Err(e) } else { Ok(later) },
                }
            })
            .collect()
    }
    fn lookup(&self, block: &Clo, key: &str) -> Option<V> {
        let fields = |v: &V, want: u8| match v {
            V::C(c) => match &**bare(&c.node) {
                StgSyn::Cons { tag, args } if *tag == want => Some((args.clone(), c.env.clone())),
                _ => None,
            },
            _ => None,
        };
        let (args, env) = fields(&V::C(block.clone()), 8)?;
        let mut at = self.read(&env, args.first()?).ok()?;
        loop {
            let (list, env) = fields(&at, 7)?;
            let pair = self.read(&env, list.first()?).ok()?;
            if let Some((args, env)) = fields(&pair, 9) {
                if self.symbol(self.read(&env, args.first()?).ok()?).as_deref() == Some(key) {
                    return self.read(&env, args.get(1)?).ok();
                }
            }
            at = self.read(&env, list.get(1)?).ok()?;
        }
    }
    fn symbol(&self, v: V) -> Option<String> {
        match v {
            V::N(Native::Sym(s)) => Some(s),
            V::C(c) => match &**bare(&c.node) {
                StgSyn::Atom { evaluand } => self.symbol(self.read(&c.env, evaluand).ok()?),
                StgSyn::Cons { tag: 4, args } => self.symbol(self.read(&c.env, args.first()?).ok()?),
                _ => None,
            },
            _ => None,
        }
    }
    /// Apply a value, at `here` in the source.
    fn apply(&mut self, here: Smid, f: V, mut args: Vec<V>) -> Result<V, E> {
        let mut f = self.past(f)?;
        loop {
            match is(&f) {
                Is::Native(_) => return Err("NotCallable"),
                Is::Data(8, ..) => {
                    args.push(f);
                    self.ann = here;
                    let root = self.root.clone();
                    f = self.enter(&root, &dsl::gref(MERGE))?;
                    f = self.past(f)?;
                }
                Is::Data(..) => return Err("NotCallable"),
                Is::Meta(..) => unreachable!(),
                Is::Fun(c) => {
                    let n = c.arity as usize;
                    if args.len() < n {
                        let (have, more) = (args.len(), n - args.len());
                        if have == 0 || have > 16 || more > 16 {
                            return Err("Panic");
                        }
                        // a function of the rest: f a.. ↦ \b.. -> f a.. b..
                        let mut vs = vec![f.clone()];
                        vs.extend(args);
                        let env = Fr::new(vs, &c.env);
                        let all = (0..have).map(|i| dsl::lref(more + 1 + i)).chain((0..more).map(dsl::lref)).collect();
                        return self.whnf(V::C(Clo { node: dsl::app(dsl::lref(more), all), env, arity: more as u8, update: false, note: c.note }));
                    }
                    let rest = args.split_off(n);
                    let body = Clo { env: Fr::new(args, &c.env), arity: 0, update: false, ..c };
                    f = self.whnf(V::C(body))?;
                    if rest.is_empty() {
                        return Ok(f);
                    }
                    args = rest;
                    f = self.past(f)?;
                }
            }
        }
    }
    fn call(&mut self, id: u8, env: &Rc<Fr>, args: &[Ref]) -> Result<V, E> {
        let mut line = format!("{}@{:?}", id, self.ann);
        let mut sum = id as i64;
        for a in args {
            let v = self.read(env, a)?;
            let v = if id % 4 == 0 {
                self.meta = None;
                let r = match v {
                    V::N(_) => Ok(v),
                    _ => self.run(v).and_then(|v| match is(&v) {
                        Is::Data(12..=15, ..) => Err("Panic"),
                        _ => Ok(v),
                    }),
                };
                match r {
                    Ok(v) => {
                        line += &format!(" ={}", self.meta.take().map(|m| say(&m)).unwrap_or_default());
                        v
                    }
                    Err("fuel") => return Err("fuel"),
                    Err(e) => {
                        line += &format!(" {e}");
                        continue;
                    }
                }
            } else {
                v
            };
            line += &format!(" {}", say(&v));
            sum = sum.wrapping_mul(3).wrapping_add(num(&v)) % 1000;
        }
        self.log.push(line);
        let root = self.root.clone();
        match id {
            2 if !args.is_empty() => self.read(env, &args[0]),
            3 | 7 => {
                let g = self.read(env, &dsl::gref(id as usize % 4))?;
                if args.is_empty() {
                    return Ok(g);
                }
                let vs = args.iter().map(|a| self.read(env, a)).collect::<Result<_, _>>()?;
                let here = self.ann;
                let f = self.whnf(g)?;
                self.apply(here, f, vs)
            }
            4 => Ok(V::C(clo(&dsl::bool_(sum % 2 == 0), &root))),
            5 => Ok(V::C(clo(&dsl::data(3, vec![dsl::num(sum)]), &root))),
            6 => Ok(V::C(clo(&dsl::unit(), &root))),
            _ => Ok(V::N(Native::Num(sum.into()))),
        }
    }
    /// One operand of a fused operator: forced, and unboxed if it is a box.
    fn operand(&mut self, env: &Rc<Fr>, r: &Ref) -> Result<V, E> {
        let mut v = self.enter(env, r)?;
        loop {
            v = self.past(v)?;
            match is(&v) {
                Is::Data(3 | 4 | 5 | 11, args, c) => {
                    let f = self.read(&c.env, args.first().ok_or("Panic")?)?;
                    v = self.whnf(f)?;
                }
                _ => return Ok(v),
            }
        }
    }
    fn whnf(&mut self, v: V) -> Result<V, E> {
        self.depth += 1;
        let r = if self.depth > 400 { Err("fuel") } else { self.eval(v) };
        self.depth -= 1;
        r
    }
    fn eval(&mut self, mut v: V) -> Result<V, E> {
        loop {
            if self.fuel == 0 {
                return Err("fuel");
            }
            self.fuel -= 1;
            let c = match &v {
                V::N(_) => return Ok(v),
                V::Hole => return Err("BlackHole"),
                V::C(c) => c.clone(),
            };
            if c.note.is_valid() {
                self.ann = c.note;
            }
            if c.arity > 0 {
                return Ok(v);
            }
            let env = c.env.clone();
            let mut node = &c.node;
            while let StgSyn::Ann { smid, body } = &**node {
                self.ann = *smid;
                node = body;
            }
            v = match &**node {
                StgSyn::Ann { .. } => unreachable!(),
                StgSyn::Cons { .. } | StgSyn::Meta { .. } => return Ok(v),
                StgSyn::BlackHole => return Err("BlackHole"),
                StgSyn::Atom { evaluand: Ref::V(n) } => return Ok(V::N(n.clone())),
                StgSyn::Atom { evaluand } => return self.enter(&env, evaluand),
                StgSyn::Case { scrutinee, branches, fallback } => {
                    let r = self.whnf(V::C(clo(scrutinee, &env)))?;
                    let r = self.past(r)?;
                    let what = is(&r);
                    let branch = match &what {
                        Is::Data(tag, ..) => branches.iter().rev().find(|(t, _)| t == tag).map(|(_, b)| b),
                        _ => None,
                    };
                    match (branch, fallback, what) {
                        (Some(b), _, Is::Data(_, args, d)) => {
                            let own = d.env.slots.borrow().len();
                            let shared = args.len() <= 4 && args.iter().all(|a| matches!(a, Ref::L(i) if *i < own));
                            let at = if args.is_empty() {
                                env
                            } else if shared {
                                let slots = args.iter().map(|a| self.place(&d.env, a)).collect::<Result<_, _>>()?;
                                Rc::new(Fr { slots: RefCell::new(slots), next: Some(env) })
                            } else {
                                let vs = args.iter().map(|a| self.read(&d.env, a)).collect::<Result<_, _>>()?;
                                Fr::new(vs, &env)
                            };
                            V::C(clo(b, &at))
                        }
                        (_, Some(fb), _) => V::C(clo(fb, &Fr::new(vec![r], &env))),
                        (_, _, Is::Native(_)) => return Err("NoBranchForNative"),
                        (_, _, Is::Fun(_)) => return Err("CannotReturnFunToCase"),
                        _ => return Err("NoBranchForDataTag"),
                    }
                }
                StgSyn::App { callable, args, eager_args } => {
                    let args = self.args(&env, args, *eager_args)?;
                    if let Ref::V(_) = callable {
                        return Err("NotCallable");
                    }
                    let here = self.ann;
                    let f = self.enter(&env, callable)?;
                    return self.apply(here, f, args);
                }
                StgSyn::DirectApp { smid, callable, args, eager_args } => {
                    self.ann = *smid;
                    let args = self.args(&env, args, *eager_args)?;
                    if let Ref::V(_) = callable {
                        return Err("NotCallable");
                    }
                    let slot = self.place(&env, callable)?;
                    let f = slot.borrow().clone();
                    let f = match &f {
                        V::N(_) => return Err("NotCallable"),
                        V::C(g) if g.arity as usize == args.len() && !g.update => {
                            v = V::C(Clo { env: Fr::new(args, &g.env), arity: 0, update: false, ..g.clone() });
                            continue;
                        }
                        _ => self.enter(&env, callable)?,
                    };
                    return self.apply(*smid, f, args);
                }
                StgSyn::Bif { intrinsic, args } => self.call(*intrinsic, &env, args)?,
                StgSyn::Let { bindings, body } => {
                    let at = Fr::new(bindings.iter().map(|b| form(b, &env)).collect(), &env);
                    V::C(clo(body, &at))
                }
                StgSyn::LetRec { bindings, body } => {
                    let at = Fr::new(vec![], &env);
                    let slots = bindings.iter().map(|b| Rc::new(RefCell::new(form(b, &at)))).collect();
                    *at.slots.borrow_mut() = slots;
                    V::C(clo(body, &at))
                }
                StgSyn::DeMeta { scrutinee, handler, or_else } => {
                    let r = self.whnf(V::C(clo(scrutinee, &env)))?;
                    match is(&r) {
                        Is::Meta(meta, body, c) => {
                            let vs = vec![self.read(&c.env, &meta)?, self.read(&c.env, &body)?];
                            V::C(clo(handler, &Fr::new(vs, &env)))
                        }
                        _ => V::C(clo(or_else, &Fr::new(vec![r], &env))),
                    }
                }
                StgSyn::Seq { scrutinee, body } => {
                    let here = self.ann;
                    let r = self.whnf(V::C(clo(scrutinee, &env)))?;
                    self.past(r)?;
                    self.ann = here;
                    V::C(clo(body, &env))
                }
                StgSyn::LookupLit { smid, key, obj, default } => {
                    self.ann = *smid;
                    let Ref::V(Native::Sym(key)) = key else { return Err("NotValue") };
                    let block = match (obj, self.read(&env, obj)?) {
                        (Ref::V(_), _) | (_, V::N(_)) => return Err("NotCallable"),
                        (_, V::C(c)) if matches!(&**bare(&c.node), StgSyn::Cons { tag: 8, .. }) => c,
                        (Ref::G(_), o) => {
                            // a global is evaluated each time
                            let r = self.whnf(o)?;
                            self.target(r)?
                        }
                        _ => {
                            let r = self.enter(&env, obj)?;
                            self.target(r)?
                        }
                    };
                    match self.lookup(&block, key) {
                        Some(v) => v,
                        None => V::C(clo(&dsl::atom(default.clone()), &env)),
                    }
                }
                StgSyn::FusedPrimop { primop_id, left, right, .. } => {
                    let l = self.operand(&env, left)?;
                    let r = self.operand(&env, right)?;
                    let at = Fr::new(vec![l, r], &env);
                    self.call(*primop_id, &at, &[dsl::lref(0), dsl::lref(1)])?
                }
            };
        }
    }
    fn target(&mut self, v: V) -> Result<Clo, E> {
        let v = self.past(v)?;
        match is(&v) {
            Is::Data(8, _, c) => Ok(c),
            Is::Data(..) => Err("NoBranchForDataTag"),
            Is::Fun(_) => Err("LookupOnFunction"),
            _ => Err("NoBranchForNative"),
        }
    }
}

// ── Programs ────────────────────────────────────────────────────────

/// What a variable is meant to hold.
#[derive(Clone, Copy, PartialEq)]
enum K {
    Num,
    Fun(u8),
    Data,
    Block,
    List,
    Pair,
}
struct Gen<'a, S> {
    s: &'a mut S,
    size: i32,
    note: u32,
}
impl<S: Src> Gen<'_, S> {
    fn n(&mut self, n: u64) -> u64 {
        self.s.below(n)
    }
    fn note(&mut self) -> Smid {
        self.note += 1;
        Smid::from(self.note)
    }
    fn kind(&mut self) -> K {
        match self.n(8) {
            0..=2 => K::Num,
            3 | 4 => K::Fun(self.n(4) as u8 + 1),
            5 | 6 => K::Data,
            _ => K::Block,
        }
    }
    /// A reference of the kind, if the scope has one; now and then another.
    fn var(&mut self, scope: &[K], k: K) -> Option<Ref> {
        if !scope.is_empty() && self.n(16) == 0 {
            return Some(dsl::lref(self.n(scope.len() as u64) as usize));
        }
        let all: Vec<usize> = (0..scope.len()).filter(|i| scope[*i] == k).collect();
        if all.is_empty() {
            return match k {
                K::Num => Some(dsl::gref(4 + self.n(2) as usize)),
                K::Fun(n) if n <= 4 => Some(dsl::gref(n as usize - 1)),
                K::Data => Some(dsl::gref(6)),
                K::Block => Some(dsl::gref(7)),
                _ => None,
            };
        }
        // recent ones more often
        let i = if self.n(2) == 0 { 0 } else { self.n(all.len() as u64) as usize };
        Some(dsl::lref(all[i]))
    }
    fn any(&mut self, scope: &[K]) -> Ref {
        if scope.is_empty() || self.n(10) == 0 {
            return if self.n(2) == 0 { dsl::gref(self.n(8) as usize) } else { dsl::num(self.n(40) as i64) };
        }
        dsl::lref(self.n(scope.len() as u64) as usize)
    }
    fn atom(&mut self, scope: &[K], k: K) -> Rc<StgSyn> {
        match (self.var(scope, k), k) {
            (_, K::Num) if self.n(4) == 0 => dsl::atom(dsl::num(self.n(40) as i64)),
            (Some(r), _) => dsl::atom(r),
            (None, K::Num) => dsl::atom(dsl::num(self.n(40) as i64)),
            (None, K::Fun(n)) => {
                let inner: Vec<K> = vec![K::Num; n as usize].into_iter().chain(scope.iter().copied()).collect();
                let body = self.atom(&inner, K::Num);
                dsl::let_(vec![dsl::lambda(n, body)], dsl::local(0))
            }
            (None, _) => self.cons(scope),
        }
    }
    fn cons(&mut self, scope: &[K]) -> Rc<StgSyn> {
        let tag = [0, 1, 3, 4, 5, 10, 16, 12, 2, 7][self.n(10) as usize];
        let n = [0, 1, 2, 3, 1, 2, 5, 4][self.n(8) as usize];
        let args = (0..n).map(|_| if scope.is_empty() { dsl::num(self.n(9) as i64) } else if self.n(6) == 0 { self.any(scope) } else { dsl::lref(self.n(scope.len().min(6) as u64) as usize) }).collect();
        dsl::data(tag, args)
    }
    fn group(&mut self, scope: &[K], depth: u32, k: K) -> Rc<StgSyn> {
        let rec = self.n(2) == 0;
        let n = self.n(3) as usize + 1;
        let ks: Vec<K> = (0..n).map(|_| self.kind()).collect();
        let inner: Vec<K> = ks.iter().copied().chain(scope.iter().copied()).collect();
        let at: Vec<K> = if rec { inner.clone() } else { scope.to_vec() };
        let forms = ks.iter().map(|k| self.form(&at, depth, *k)).collect();
        let body = self.expr(&inner, depth, k);
        if rec { dsl::letrec_(forms, body) } else { dsl::let_(forms, body) }
    }
    fn form(&mut self, scope: &[K], depth: u32, k: K) -> LambdaForm {
        match k {
            K::Fun(n) if self.n(5) > 0 => {
                let args: Vec<K> = (0..n).map(|_| self.kind()).collect();
                let inner: Vec<K> = args.into_iter().chain(scope.iter().copied()).collect();
                let k = if self.n(4) == 0 { self.kind() } else { K::Num };
                let body = self.expr(&inner, depth, k);
                if self.n(2) == 0 { dsl::lambda(n, body) } else { let a = self.note(); dsl::annotated_lambda(n, body, a) }
            }
            _ => {
                let body = self.expr(scope, depth, k);
                if self.n(4) == 0 { dsl::value(body) } else { dsl::thunk(body) }
            }
        }
    }
    /// A literal block of a few entries.
    fn block(&mut self, scope: &[K], depth: u32) -> Rc<StgSyn> {
        let n = self.n(3) as usize;
        let v = self.form(scope, depth, K::Num);
        let mut scope: Vec<K> = [K::Num].into_iter().chain(scope.iter().copied()).collect();
        let mut wraps = vec![vec![v], vec![dsl::value(dsl::nil())]];
        scope.insert(0, K::List);
        for _ in 0..n {
            // pair, then the list with it in front
            let key = self.key();
            let value = if self.n(3) == 0 { self.any(&scope) } else { dsl::lref(scope.len() - 1) };
            let value = match value { Ref::L(i) if i + 1 == scope.len() => dsl::lref(scope.iter().position(|k| *k == K::Num).unwrap()), v => v };
            wraps.push(vec![dsl::value(dsl::pair(key, value))]);
            scope.insert(0, K::Pair);
            wraps.push(vec![dsl::value(dsl::cons(dsl::lref(0), dsl::lref(1)))]);
            scope.insert(0, K::List);
        }
        let mut e = dsl::block(dsl::lref(0));
        for w in wraps.into_iter().rev() {
            e = dsl::let_(w, e);
        }
        e
    }
    fn key(&mut self) -> &'static str {
        ["a", "b", "c"][self.n(3) as usize]
    }
    fn some(&mut self, scope: &[K], n: u64) -> Vec<Ref> {
        let k = self.n(n) + 1;
        (0..k).map(|_| if self.n(3) == 0 { dsl::num(self.n(40) as i64) } else if self.n(2) == 0 { self.var(scope, K::Num).unwrap() } else { self.any(scope) }).collect()
    }
    fn expr(&mut self, scope: &[K], depth: u32, k: K) -> Rc<StgSyn> {
        self.size -= 1;
        if depth == 0 || self.size <= 0 {
            return match k {
                K::Block if self.n(2) == 0 => self.block(scope, 0),
                K::Data if self.n(2) == 0 => self.cons(scope),
                K::Num if self.n(3) == 0 => { let a = self.some(scope, 2); dsl::app_bif(self.n(2) as u8, a) }
                _ => self.atom(scope, k),
            };
        }
        let d = depth - 1;
        match self.n(22) {
            0..=3 => self.group(scope, d, k),
            4 | 5 => {
                let from = self.kind();
                let scr = if self.n(4) == 0 { from } else { K::Data };
                let scr = self.expr(scope, d, scr);
                let n = self.n(4);
                let branches = (0..n)
                    .map(|_| {
                        let tag = [1, 3, 4, 5, 10, 7][self.n(6) as usize];
                        let inner: Vec<K> = [K::Num, K::Num].into_iter().chain(scope.iter().copied()).collect();
                        (tag, self.expr(&inner, d, k))
                    })
                    .collect();
                if n > 0 && self.n(6) == 0 {
                    return dsl::switch(scr, branches);
                }
                let inner: Vec<K> = [from].into_iter().chain(scope.iter().copied()).collect();
                let fb = self.expr(&inner, d, k);
                dsl::case(scr, branches, fb)
            }
            6..=9 => {
                let n = self.n(4) as u8 + 1;
                let mut args = self.some(scope, 3);
                if self.n(3) > 0 {
                    while args.len() < n as usize { args.push(dsl::num(7)); }
                    args.truncate(n as usize);
                }
                let f = self.var(scope, K::Fun(n)).unwrap();
                match self.n(4) {
                    0 => dsl::app(f, args),
                    1 => dsl::app_eager(f, args),
                    2 => { let a = self.note(); dsl::direct_app(a, f, args) }
                    _ => { let a = self.note(); dsl::direct_app_eager(a, f, args) }
                }
            }
            10 | 11 => { let a = self.some(scope, 2); dsl::app_bif([0, 1, 2, 3, 4, 5, 6, 7, 0, 1][self.n(10) as usize], a) }
            12 => { let scr = self.expr(scope, d, K::Num); let body = self.expr(scope, d, k); dsl::seq(scr, body) }
            13 | 14 => { let a = self.note(); let e = self.expr(scope, d, k); dsl::ann(a, e) }
            15 => { let m = self.any(scope); let b = self.var(scope, k).unwrap_or(dsl::num(3)); dsl::with_meta(m, b) }
            16 => {
                let scr = self.expr(scope, d, k);
                let two: Vec<K> = [K::Num, k].into_iter().chain(scope.iter().copied()).collect();
                let one: Vec<K> = [k].into_iter().chain(scope.iter().copied()).collect();
                let h = self.expr(&two, d, k);
                let o = self.expr(&one, d, k);
                dsl::demeta(scr, h, o)
            }
            17 | 18 => {
                let smid = self.note();
                let obj = self.var(scope, K::Block).unwrap();
                let default = self.any(scope);
                let key = self.key();
                Rc::new(StgSyn::LookupLit { smid, key: dsl::sym(key), obj, default })
            }
            19 => {
                let (left, right) = (self.any(scope), self.any(scope));
                Rc::new(StgSyn::FusedPrimop { primop_id: self.n(2) as u8, left, right, inner: dsl::unit() })
            }
            20 => self.expr(scope, d, k),
            _ => match k {
                K::Data => self.cons(scope),
                K::Block => self.block(scope, d),
                _ => self.atom(scope, k),
            },
        }
    }
    fn globals(&mut self) -> Vec<LambdaForm> {
        let mut g: Vec<LambdaForm> = (1..=4).map(|n| self.form(&[], 2, K::Fun(n))).collect();
        g.push(dsl::thunk(dsl::app_bif(1, vec![dsl::num(11)])));
        g.push(dsl::value(dsl::atom(dsl::num(5))));
        g.push(self.form(&[], 1, K::Data));
        g.push(self.form(&[], 1, K::Block));
        while g.len() < GLOBALS {
            g.push(dsl::value(dsl::unit()));
        }
        g[MERGE] = if self.n(2) == 0 { dsl::lambda(2, dsl::app_bif(1, vec![dsl::lref(0), dsl::lref(1)])) } else { dsl::thunk(dsl::global(1)) };
        g
    }
}

contracts! {
    fn programs(s) {
        let (globals, root) = {
            let size = s.below(40) as i32 + 6;
            let mut g = Gen { s, size: 30, note: 0 };
            let globals = g.globals();
            if g.n(4) == 0 {
                g.size = size;
                let k = g.kind();
                (globals, g.expr(&[], 7, k))
            } else {
                // several in a row, whatever becomes of each
                let n = 12;
                let ks: Vec<K> = (0..n).map(|_| g.kind()).collect();
                let forms = ks
                    .iter()
                    .map(|k| {
                        g.size = size;
                        g.form(&ks, 6, *k)
                    })
                    .collect();
                (globals, dsl::letrec_(forms, dsl::app_bif(0, (0..n).map(dsl::lref).collect())))
            }
        };

        // as it should go
        let none = Rc::new(Fr { slots: RefCell::new(vec![]), next: None });
        let top = Fr::new(globals.iter().map(|g| form(g, &none)).collect(), &none);
        let mut e = Eval { globals: top, root: none.clone(), ann: Smid::default(), meta: None, log: vec![], fuel: 6000, depth: 0 };
        let want = e.run(V::C(clo(&root, &none)));
        pre!(want.as_ref().err() != Some(&"fuel"));

        // as it goes
        LOG.with(|l| l.borrow_mut().clear());
        let (prog, at, forms) = encode(&root, &globals);
        let bifs: Vec<&dyn StgIntrinsic> = NOTED.iter().map(|n| n as &dyn StgIntrinsic).collect();
        let Ok(mut m) = BytecodeMachine::new(prog, at, &forms, bifs, Box::new(NullEmitter), 0, false) else { return crate::src::Res::Fail("a program can be loaded") };
        let got = m.run(Some(TICKS));
        if std::env::var("P09_STAT").is_ok() { eprintln!("STAT {} {:?}", e.log.len(), want.as_ref().map(|_| ())); for l in &e.log { for w in l.split(' ').skip(1) { eprintln!("W {w}"); } } }
        let log = LOG.with(|l| l.borrow().clone());
        if std::env::var("P09_SHOW").is_ok() {
            eprintln!("{:#?}\n{root:#?}\nwant {:?} {:?}\ngot {:?} {:?}", &globals[..4], want.as_ref().map(say), e.log, got, log);
        }
        ck!(log == e.log, "intrinsics are called in the right order, with the right operands, each as often as it should be");
        match (&want, &got) {
            (Err(k), Err(e)) => { ck!(kind(e) == *k, "evaluation fails in the right way"); }
            (Ok(v), Ok(_)) => {
                ck!(shape(&m.current()).trim_end_matches('!') == say(v).trim_end_matches('!'), "evaluation ends in the right value");
                ck!(m.annotation() == e.ann, "evaluation ends at the right place in the source");
                match (is(v), m.current()) {
                    (Is::Data(12..=15, args, _), _) => {
                        ck!(m.io_yielded() && m.yielded_io_args().map(|a| a.len()) == Some(args.len()), "an action reaching the top is yielded");
                    }
                    _ => { ck!(!m.io_yielded(), "only an action is yielded"); }
                }
            }
            _ => return crate::src::Res::Fail("evaluation succeeds exactly when it should"),
        }
    }
}
