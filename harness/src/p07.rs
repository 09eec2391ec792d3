//! Garbage collection: random object graphs with a shadow copy, collected in
//! every way the collector has, then compared (executable side of
//! verus/gcscan.rs and verus/gccollect.rs).
use crate::src::Src;
use crate::{ck, contracts};
use eucalypt::common::sourcemap::Smid;
use eucalypt::eval::bytecode::{BcClosure, BcContinuation, BcEnvFrame, BcMachineState, BcValue, BifFrame};
use eucalypt::eval::machine::metrics::Clock;
use eucalypt::eval::memory::alloc::ScopedAllocator;
use eucalypt::eval::memory::array::Array;
use eucalypt::eval::memory::collect::{collect, collect_with_evacuation};
use eucalypt::eval::memory::heap::Heap;
use eucalypt::eval::memory::infotable::InfoTable;
use eucalypt::eval::memory::mutator::MutatorHeapView;
use eucalypt::eval::memory::ndarray::HeapNdArray;
use eucalypt::eval::memory::set::{HeapSet, Primitive};
use eucalypt::eval::memory::string::HeapString;
use eucalypt::eval::memory::syntax::{Native, Ref, RefPtr};
use eucalypt::eval::memory::vec::HeapVec;
use std::collections::HashMap;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
}

#[derive(Clone, Debug, PartialEq)]
enum SVal {
    Clo(u32, usize),
    Str(String),
    Set(Vec<i32>),
    Vec(Vec<i32>),
    Nd(Vec<i32>),
    Word(u64),
}
struct SEnv {
    backing: usize,
    remap: Option<Vec<u8>>,
    next: Option<usize>,
    note: u32,
}
#[derive(Clone, PartialEq, Debug)]
enum SCont {
    Branch(u8, Vec<Option<u32>>, Option<u32>, usize),
    BranchPre(u32, usize),
    Update(usize, usize),
    ApplyTo(Vec<SVal>),
    DeMeta(u32, usize),
    SeqBind(u32, usize),
    Lookup(u32, usize),
    CaptureEnd,
    Left(u8, usize),
    Right(u8, SVal, usize),
}
#[derive(Default)]
struct Shadow {
    envs: Vec<SEnv>,
    backings: Vec<Vec<SVal>>,
    globals: usize,
    root: usize,
    current: Option<SVal>,
    stack: Vec<SCont>,
    constants: Vec<SVal>,
    stash: Vec<SVal>,
    suspended: Vec<Vec<SCont>>,
    frames: Vec<(usize, Vec<SVal>)>,
    meta: Option<SVal>,
}
impl Shadow {
    fn width(&self, e: usize) -> usize {
        match &self.envs[e].remap {
            Some(m) => m.len(),
            None => self.backings[self.envs[e].backing].len(),
        }
    }
    /// Backing and slot of a logical index.
    fn slot(&self, mut e: usize, mut i: usize) -> Option<(usize, usize)> {
        loop {
            let w = self.width(e);
            if i < w {
                let p = match &self.envs[e].remap {
                    Some(m) => m[i] as usize,
                    None => i,
                };
                return Some((self.envs[e].backing, p));
            }
            i -= w;
            e = self.envs[e].next?;
        }
    }
    fn depth(&self, mut e: usize) -> usize {
        let mut n = 1;
        while let Some(x) = self.envs[e].next {
            e = x;
            n += 1;
        }
        n
    }
}

pub struct World {
    heap: Heap,
    state: Option<BcMachineState>,
    sh: Shadow,
    /// Frames known to be live, and where they are.
    at: HashMap<usize, RefPtr<BcEnvFrame>>,
    known: Vec<usize>,
    /// Live values as they are held, to be copied from one holder to another.
    have: Vec<(SVal, BcValue)>,
    r: Rng,
}
type Out = Result<(), &'static str>;

impl World {
    fn word(&mut self) -> SVal {
        match self.r.below(9) {
            0 | 7 | 8 => {
                let n = [0, 1, 3, 12, 100, 400, 3000][self.r.below(7)];
                let c = (b'a' + self.r.below(26) as u8) as char;
                SVal::Str(c.to_string().repeat(n))
            }
            1 => SVal::Set((0..self.r.below(4)).map(|_| self.r.below(50) as i32).collect::<std::collections::BTreeSet<_>>().into_iter().collect()),
            2 => SVal::Vec((0..self.r.below(4)).map(|_| self.r.below(50) as i32).collect()),
            3 => SVal::Nd((0..1 + self.r.below(4)).map(|_| self.r.below(50) as i32).collect()),
            _ => SVal::Word(self.r.next()),
        }
    }
    fn pick(&mut self) -> Option<usize> {
        if self.known.is_empty() {
            return None;
        }
        // mostly recent frames, to make chains
        let n = self.known.len();
        let k = if self.r.one_in(2) { n - 1 - self.r.below(n.min(5)) } else { self.r.below(n) };
        Some(self.known[k])
    }
    fn val(&mut self) -> SVal {
        if !self.have.is_empty() && self.r.one_in(4) {
            let i = self.r.below(self.have.len());
            return self.have[i].0.clone();
        }
        if !self.r.one_in(3) {
            if let Some(e) = self.pick() {
                return SVal::Clo(self.r.below(1 << 20) as u32, e);
            }
        }
        self.word()
    }
    fn native(&self, v: &SVal) -> Native {
        if let Some((_, BcValue::Native(n))) = self.have.iter().find(|(h, _)| h == v) {
            return n.clone();
        }
        let view = MutatorHeapView::new(&self.heap);
        let prims = |v: &Vec<i32>| v.iter().map(|i| Primitive::Num((*i as f64).into())).collect::<Vec<_>>();
        match v {
            SVal::Str(s) => Native::Str(view.alloc(HeapString::from_str(&view, s)).unwrap().as_ptr()),
            SVal::Set(v) => Native::Set(view.alloc(HeapSet::from_primitives(prims(v).into_iter())).unwrap().as_ptr()),
            SVal::Vec(v) => Native::Vec(view.alloc(HeapVec::from_primitives(prims(v).into_iter())).unwrap().as_ptr()),
            SVal::Nd(v) => Native::NdArray(view.alloc(HeapNdArray::from_flat(&[v.len()], v.iter().map(|i| *i as f64).collect()).unwrap()).unwrap().as_ptr()),
            SVal::Word(w) => Native::Prng(*w),
            SVal::Clo(..) => unreachable!(),
        }
    }
    fn real(&self, v: &SVal) -> BcValue {
        if let Some((_, r)) = self.have.iter().find(|(h, _)| h == v) {
            return r.clone();
        }
        match v {
            SVal::Clo(c, e) => BcValue::Closure(BcClosure::new_annotated_lambda(*c, (*c % 5) as u8, self.at[e], Smid::from(*c / 3 + 1))),
            v => BcValue::Native(self.native(v)),
        }
    }
    /// A frame over fresh, or over another's, storage.
    fn frame(&mut self) -> usize {
        let next = if self.r.one_in(3) { self.pick() } else { None }.filter(|n| self.sh.depth(*n) < 6);
        let note = self.r.below(1 << 20) as u32;
        let share = if self.r.one_in(5) { self.pick() } else { None };
        let (backing, remap, array): (usize, Option<Vec<u8>>, Array<BcValue>) = match share {
            Some(e) => {
                let b = self.sh.envs[e].backing;
                let n = self.sh.backings[b].len();
                let view = MutatorHeapView::new(&self.heap);
                let arr = (*view.scoped(self.at[&e])).shared_bindings_full();
                if n > 0 && self.r.one_in(2) {
                    let m: Vec<u8> = (0..1 + self.r.below(4)).map(|_| self.r.below(n.min(200)) as u8).collect();
                    (b, Some(m), arr)
                } else {
                    (b, None, arr)
                }
            }
            None => {
                let n = if self.r.one_in(12) { 40 + self.r.below(300) } else { self.r.below(6) };
                let vs: Vec<SVal> = (0..n).map(|_| self.val()).collect();
                let rs: Vec<BcValue> = vs.iter().map(|v| self.real(v)).collect();
                self.sh.backings.push(vs);
                (self.sh.backings.len() - 1, None, MutatorHeapView::new(&self.heap).array(&rs))
            }
        };
        let view = MutatorHeapView::new(&self.heap);
        let nx = next.map(|n| self.at[&n]);
        let f = match &remap {
            Some(m) => BcEnvFrame::new_remapped(array, m, Smid::from(note), nx),
            None => BcEnvFrame::new(array, Smid::from(note), nx),
        };
        let p = view.alloc(f).unwrap().as_ptr();
        self.sh.envs.push(SEnv { backing, remap, next, note });
        let id = self.sh.envs.len() - 1;
        self.at.insert(id, p);
        self.known.push(id);
        id
    }
    fn some_frame(&mut self) -> usize {
        match self.pick() {
            Some(e) => e,
            None => self.frame(),
        }
    }
    fn cont(&mut self) -> SCont {
        let e = self.some_frame();
        let c = self.r.below(1 << 20) as u32;
        match self.r.below(13) {
            0 => SCont::Branch(c as u8, (0..self.r.below(5)).map(|i| if i == 1 { None } else { Some(c + i as u32) }).collect(), Some(c), e),
            1 => SCont::BranchPre(c, e),
            2 => SCont::Update(e, c as usize),
            3 => SCont::ApplyTo((0..self.r.below(5)).map(|_| self.val()).collect()),
            4 => SCont::DeMeta(c, e),
            5 => SCont::SeqBind(c, e),
            6 => SCont::Lookup(c, e),
            7 => SCont::CaptureEnd,
            8 => SCont::Left(c as u8, e),
            _ => {
                let v = if self.r.one_in(2) { self.word() } else { self.val() };
                SCont::Right(c as u8, v, e)
            }
        }
    }
    fn real_cont(&self, c: &SCont) -> BcContinuation {
        let view = MutatorHeapView::new(&self.heap);
        let s = Smid::from(7);
        match c {
            SCont::Branch(t, b, f, e) => BcContinuation::Branch { min_tag: *t, branch_table: view.array(b), fallback: *f, environment: self.at[e], annotation: s },
            SCont::BranchPre(b, e) => BcContinuation::BranchPredecoded { min_tag: 1, branch_start: *b, branch_len: 3, fallback: *b, environment: self.at[e], annotation: s },
            SCont::Update(e, i) => BcContinuation::Update { environment: self.at[e], index: *i, annotation: s },
            SCont::ApplyTo(vs) => {
                let rs: Vec<BcValue> = vs.iter().map(|v| self.real(v)).collect();
                BcContinuation::ApplyTo { args: view.array(&rs), annotation: s }
            }
            SCont::DeMeta(h, e) => BcContinuation::DeMeta { handler: *h, or_else: *h, environment: self.at[e] },
            SCont::SeqBind(b, e) => BcContinuation::SeqBind { body: *b, environment: self.at[e], annotation: s },
            SCont::Lookup(k, e) => BcContinuation::LookupLitForce { key: eucalypt::eval::memory::symbol::SymbolPool::new().intern("k"), smid: s, default_closure: BcClosure::new(*k, self.at[e]) },
            SCont::CaptureEnd => BcContinuation::CaptureEnd,
            SCont::Left(p, e) => BcContinuation::FusedPrimopLeft { primop_id: *p, right: 3, environment: self.at[e], annotation: s },
            SCont::Right(p, v, e) => BcContinuation::FusedPrimopRight { primop_id: *p, left: self.real(v), environment: self.at[e], annotation: s },
        }
    }
    fn konst(&mut self) -> SVal {
        self.word()
    }

    pub fn new(seed: u64) -> World {
        let mut w = World { heap: Heap::new(), state: None, sh: Shadow::default(), at: HashMap::new(), known: vec![], have: vec![], r: Rng(seed) };
        w.grow();
        let (g, r) = (w.some_frame(), w.some_frame());
        w.sh.globals = g;
        w.sh.root = r;
        let cur = w.val();
        let consts: Vec<SVal> = (0..w.r.below(4)).map(|_| w.konst()).collect();
        let rc = consts.iter().map(|c| Ref::V(w.native(c))).collect();
        let state = BcMachineState::new(w.real(&cur), w.at[&g], w.at[&r], rc);
        w.sh.current = Some(cur);
        w.sh.constants = consts;
        w.state = Some(state);
        w.roots();
        w
    }
    /// Garbage, and new frames that may or may not end up reachable.
    pub fn grow(&mut self) {
        let keep = [5, 20, 60][self.r.below(3)];
        let junk = [0, 3, 30, 120][self.r.below(4)];
        for _ in 0..keep {
            self.frame();
            for _ in 0..self.r.below(junk + 1) {
                let v = self.word();
                if !matches!(v, SVal::Set(_) | SVal::Vec(_) | SVal::Nd(_)) {
                    self.native(&v);
                }
            }
            if self.r.one_in(40) {
                let s = SVal::Str("L".repeat(40000));
                self.native(&s);
            }
        }
    }
    /// Replace some of the roots.
    pub fn roots(&mut self) {
        let mut st = self.state.take().unwrap();
        for _ in 0..1 + self.r.below(8) {
            match self.r.below(10) {
                0 => { let v = self.val(); st.current = self.real(&v); self.sh.current = Some(v); }
                1 | 2 => { let c = self.cont(); st.stack.push(self.real_cont(&c)); self.sh.stack.push(c); }
                3 => { let v = self.val(); st.stash.push(self.real(&v)); self.sh.stash.push(v); }
                4 => {
                    let cs: Vec<SCont> = (0..self.r.below(4)).map(|_| self.cont()).collect();
                    st.suspended_stacks.push(cs.iter().map(|c| self.real_cont(c)).collect());
                    self.sh.suspended.push(cs);
                }
                5 => {
                    let e = self.some_frame();
                    let vs: Vec<SVal> = (0..self.r.below(4)).map(|_| self.konst()).collect();
                    st.bif_frames.push(BifFrame { env: self.at[&e], args: vs.iter().map(|v| Ref::V(self.native(v))).collect() });
                    self.sh.frames.push((e, vs));
                }
                6 => { let v = if self.r.one_in(4) { None } else { Some(self.val()) }; st.stripped_meta = v.as_ref().map(|v| self.real(v)); self.sh.meta = v; }
                7 => { let v = self.konst(); st.constants.push(Ref::V(self.native(&v))); self.sh.constants.push(v); }
                8 => {
                    if self.r.one_in(2) { st.stack.pop(); self.sh.stack.pop(); }
                    if self.r.one_in(2) { st.stash.pop(); self.sh.stash.pop(); }
                    if self.r.one_in(2) { st.bif_frames.pop(); self.sh.frames.pop(); }
                    if self.r.one_in(2) { st.suspended_stacks.pop(); self.sh.suspended.pop(); }
                }
                _ => { let e = self.some_frame(); st.globals = self.at[&e]; self.sh.globals = e; }
            }
        }
        self.state = Some(st);
    }
    /// Updates of thunks, through whatever frame.
    pub fn updates(&mut self) {
        for _ in 0..self.r.below(8) {
            let e = match self.pick() { Some(e) => e, None => return };
            let i = self.r.below(8);
            let v = self.val();
            if let Some((b, p)) = self.sh.slot(e, i) {
                let view = MutatorHeapView::new(&self.heap);
                let rv = self.real(&v);
                (*view.scoped(self.at[&e])).update(&view, i, rv).unwrap();
                self.sh.backings[b][p] = v;
            }
        }
    }
    pub fn collect(&mut self) {
        let mut st = self.state.take().unwrap();
        let mut clock = Clock::default();
        let pins: Vec<_> = if self.r.one_in(4) {
            let mut es: Vec<usize> = (0..2).filter_map(|_| self.pick()).collect();
            es.retain(|e| self.at.contains_key(e));
            let hp: *const Heap = &self.heap;
            es.iter().map(|e| unsafe { MutatorHeapView::from_raw_heap(hp) }.pin(self.at[e])).collect()
        } else { vec![] };
        match self.r.below(3) {
            0 => collect(&mut st, &mut self.heap, &mut clock, false),
            1 => collect_with_evacuation(&mut st, &mut self.heap, &mut clock, &(0..40).collect::<Vec<_>>(), false),
            _ => {
                let c: Vec<usize> = (0..30).filter(|_| self.r.one_in(2)).collect();
                collect_with_evacuation(&mut st, &mut self.heap, &mut clock, &c, false)
            }
        }
        drop(pins);
        self.state = Some(st);
    }

    // ---- comparison ----
    pub fn check(&mut self) -> Out {
        self.at.clear();
        self.known.clear();
        self.have.clear();
        let st = self.state.take().unwrap();
        let mut todo = Todo { frames: vec![(self.sh.globals, st.globals), (self.sh.root, st.root_env)], seen: vec![] };
        let r = self.check_all(&st, &mut todo);
        self.state = Some(st);
        r
    }
    fn check_all(&mut self, st: &BcMachineState, todo: &mut Todo) -> Out {
        same(self.sh.current.as_ref().unwrap(), &st.current, todo)?;
        let sz = (st.stack.len(), st.stash.len(), st.suspended_stacks.len(), st.bif_frames.len(), st.constants.len());
        if sz != (self.sh.stack.len(), self.sh.stash.len(), self.sh.suspended.len(), self.sh.frames.len(), self.sh.constants.len()) {
            return Err("roots were lost");
        }
        for (c, r) in self.sh.stack.iter().zip(&st.stack) { same_cont(c, r, todo)?; }
        for (v, r) in self.sh.stash.iter().zip(&st.stash) { same(v, r, todo)?; }
        for (cs, rs) in self.sh.suspended.iter().zip(&st.suspended_stacks) {
            for (c, r) in cs.iter().zip(rs) { same_cont(c, r, todo)?; }
        }
        for ((e, vs), f) in self.sh.frames.iter().zip(&st.bif_frames) {
            todo.frames.push((*e, f.env));
            for (v, r) in vs.iter().zip(&f.args) { same_ref(v, r)?; }
        }
        for (v, r) in self.sh.constants.iter().zip(&st.constants) { same_ref(v, r)?; }
        match (&self.sh.meta, &st.stripped_meta) {
            (Some(v), Some(r)) => same(v, r, todo)?,
            (None, None) => {}
            _ => return Err("metadata was lost"),
        }
        let mut owner: HashMap<usize, usize> = HashMap::new();
        while let Some((e, p)) = todo.frames.pop() {
            if let Some(q) = self.at.get(&e) {
                if *q != p { return Err("one frame became two"); }
                continue;
            }
            if owner.insert(p.as_ptr() as usize, e).is_some() {
                return Err("two frames became one");
            }
            self.at.insert(e, p);
            self.known.push(e);
            let view = MutatorHeapView::new(&self.heap);
            let f = view.scoped(p);
            if f.annotation() != Smid::from(self.sh.envs[e].note) { return Err("a frame's annotation changed"); }
            if f.backing_len() != self.sh.backings[self.sh.envs[e].backing].len() { return Err("a frame's size changed"); }
            let mut i = 0;
            loop {
                match (self.sh.slot(e, i), f.get(&view, i)) {
                    (Some((b, k)), Some(v)) => same(&self.sh.backings[b][k], &v, todo)?,
                    (None, None) => break,
                    _ => return Err("a frame's depth changed"),
                }
                i += 1;
            }
        }
        self.known.sort();
        // values held directly by a root first, then some of those in frames
        let n = todo.seen.len();
        for _ in 0..n.min(24) {
            let i = if self.r.one_in(2) { self.r.below(n.min(12)) } else { self.r.below(n) };
            self.have.push(todo.seen[i].clone());
        }
        Ok(())
    }
    /// Sharing survives: an update through one frame shows through the others.
    pub fn run(seed: u64) -> Out {
        let mut w = World::new(seed);
        w.check()?;
        for _ in 0..1 + w.r.below(9) {
            w.updates();
            w.collect();
            w.check()?;
            w.grow();
            w.updates();
            w.check_live()?;
            w.roots();
        }
        w.collect();
        w.check()
    }
    fn check_live(&mut self) -> Out {
        let keep = (self.at.clone(), self.known.clone());
        self.check()?;
        self.at.extend(keep.0);
        self.known = keep.1;
        Ok(())
    }
}

struct Todo {
    frames: Vec<(usize, RefPtr<BcEnvFrame>)>,
    seen: Vec<(SVal, BcValue)>,
}
fn clo(code: u32, e: usize, c: &BcClosure, todo: &mut Todo) -> Out {
    if c.code() != code { return Err("a closure's code changed"); }
    todo.frames.push((e, c.env()));
    Ok(())
}
fn same(v: &SVal, r: &BcValue, todo: &mut Todo) -> Out {
    todo.seen.push((v.clone(), r.clone()));
    match (v, r) {
        (SVal::Clo(c, e), BcValue::Closure(k)) => {
            if k.arity() != (*c % 5) as u8 || k.annotation() != Smid::from(*c / 3 + 1) { return Err("a closure's static part changed"); }
            clo(*c, *e, k, todo)
        }
        (v, BcValue::Native(n)) => same_native(v, n),
        _ => Err("a value changed its kind"),
    }
}
fn same_ref(v: &SVal, r: &Ref) -> Out {
    match r {
        Ref::V(n) => same_native(v, n),
        _ => Err("a constant changed its kind"),
    }
}
fn same_native(v: &SVal, n: &Native) -> Out {
    let prims = |v: &Vec<i32>| v.iter().map(|i| Primitive::Num((*i as f64).into())).collect::<Vec<_>>();
    let ok = unsafe {
        match (v, n) {
            (SVal::Str(s), Native::Str(p)) => p.as_ref().as_slice() == s.as_bytes(),
            (SVal::Set(s), Native::Set(p)) => p.as_ref().sorted_elements().into_iter().cloned().collect::<Vec<_>>() == prims(s),
            (SVal::Vec(s), Native::Vec(p)) => p.as_ref().elements() == &prims(s)[..],
            (SVal::Nd(s), Native::NdArray(p)) => p.as_ref().to_flat_vec() == s.iter().map(|i| *i as f64).collect::<Vec<_>>(),
            (SVal::Word(w), Native::Prng(x)) => w == x,
            _ => false,
        }
    };
    if ok { Ok(()) } else { Err("a string, set, vector or array changed") }
}
fn same_cont(c: &SCont, r: &BcContinuation, todo: &mut Todo) -> Out {
    match (c, r) {
        (SCont::Branch(t, b, f, e), BcContinuation::Branch { min_tag, branch_table, fallback, environment, .. }) => {
            if min_tag != t || fallback != f || branch_table.as_slice() != &b[..] { return Err("a branch table changed"); }
            todo.frames.push((*e, *environment));
        }
        (SCont::BranchPre(b, e), BcContinuation::BranchPredecoded { branch_start, environment, .. }) if branch_start == b => todo.frames.push((*e, *environment)),
        (SCont::Update(e, i), BcContinuation::Update { environment, index, .. }) if index == i => todo.frames.push((*e, *environment)),
        (SCont::ApplyTo(vs), BcContinuation::ApplyTo { args, .. }) if args.len() == vs.len() => {
            for (v, a) in vs.iter().zip(args.iter()) { same(v, a, todo)?; }
        }
        (SCont::DeMeta(h, e), BcContinuation::DeMeta { handler, environment, .. }) if handler == h => todo.frames.push((*e, *environment)),
        (SCont::SeqBind(b, e), BcContinuation::SeqBind { body, environment, .. }) if body == b => todo.frames.push((*e, *environment)),
        (SCont::Lookup(k, e), BcContinuation::LookupLitForce { default_closure, .. }) => clo(*k, *e, default_closure, todo)?,
        (SCont::CaptureEnd, BcContinuation::CaptureEnd) => {}
        (SCont::Left(p, e), BcContinuation::FusedPrimopLeft { primop_id, environment, .. }) if primop_id == p => todo.frames.push((*e, *environment)),
        (SCont::Right(p, v, e), BcContinuation::FusedPrimopRight { primop_id, left, environment, .. }) if primop_id == p => {
            same(v, left, todo)?;
            todo.frames.push((*e, *environment));
        }
        _ => return Err("a continuation changed"),
    }
    Ok(())
}

contracts! {
    fn graph(s) {
        let seed = s.u64() ^ s.u64().rotate_left(29);
        if let Err(m) = World::run(seed) {
            return crate::src::Res::Fail(m);
        }
    }
}
