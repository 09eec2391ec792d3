//! Heap arrays and environment frames against plain vectors and named slots
//! (executable side of verus/frames.rs).
use crate::src::Src;
use crate::{ck, contracts, pre};
use eucalypt::common::sourcemap::Smid;
use eucalypt::eval::bytecode::{return_data, BcClosure, BcContinuation, BcEnvBuilder, BcEnvFrame, BcMachineState, BcValue, BytecodeProgram, DecodedProgram, DecodedRef};
use eucalypt::eval::memory::alloc::ScopedAllocator;
use eucalypt::eval::memory::array::Array;
use eucalypt::eval::memory::heap::Heap;
use eucalypt::eval::memory::infotable::InfoTable;
use eucalypt::eval::memory::mutator::MutatorHeapView;
use eucalypt::eval::memory::syntax::{Native, Ref, RefPtr};

/// A frame as it should be: which slot each of its variables names.
struct F {
    at: RefPtr<BcEnvFrame>,
    /// Slots of the storage behind it.
    store: Vec<usize>,
    array: Array<BcValue>,
    own: Vec<usize>,
    next: Option<usize>,
    note: u32,
}
struct W<'a> {
    view: MutatorHeapView<'a>,
    root: RefPtr<BcEnvFrame>,
    slots: Vec<u32>,
    fs: Vec<F>,
    n: u32,
}
fn mark(v: &BcValue) -> Option<u32> {
    match v {
        BcValue::Closure(c) => Some(c.code()),
        BcValue::Native(Native::Prng(n)) => Some(*n as u32),
        _ => None,
    }
}
impl<'a> W<'a> {
    fn fresh(&mut self) -> (u32, BcValue) {
        self.n += 1;
        let v = if self.n % 3 == 0 { BcValue::Native(Native::Prng(self.n as u64)) } else { BcValue::Closure(BcClosure::new(self.n, self.root)) };
        (self.n, v)
    }
    fn slot(&mut self) -> (usize, BcValue) {
        let (n, v) = self.fresh();
        self.slots.push(n);
        (self.slots.len() - 1, v)
    }
    fn find(&self, mut f: usize, mut i: usize) -> Option<usize> {
        loop {
            let g = &self.fs[f];
            if i < g.own.len() {
                return Some(g.own[i]);
            }
            i -= g.own.len();
            f = g.next?;
        }
    }
    fn depth(&self, mut f: usize) -> usize {
        let mut n = self.fs[f].own.len();
        while let Some(g) = self.fs[f].next {
            f = g;
            n += self.fs[f].own.len();
        }
        n
    }
    fn parent(&self, next: Option<usize>) -> RefPtr<BcEnvFrame> {
        next.map(|n| self.fs[n].at).unwrap_or(self.root)
    }
    fn get(&self, f: usize, i: usize) -> Option<u32> {
        self.view.scoped(self.fs[f].at).get(&self.view, i).map(|v| mark(&v).unwrap_or(u32::MAX))
    }
    /// Every variable of every frame, and the first index past each.
    fn agrees(&self) -> bool {
        (0..self.fs.len()).all(|f| {
            let d = self.depth(f);
            (0..d + 2).all(|i| self.get(f, i) == self.find(f, i).map(|s| self.slots[s])) && self.view.scoped(self.fs[f].at).annotation() == Smid::from(self.fs[f].note)
        })
    }
}

contracts! {
    fn arrays(s) {
        let heap = Heap::new();
        let view = MutatorHeapView::new(&heap);
        let mut real: Vec<Array<u64>> = vec![];
        let mut shadow: Vec<Vec<u64>> = vec![];
        let steps = s.below(60) + 4;
        for _ in 0..steps {
            let k = if real.is_empty() { 0 } else { s.below(12) };
            let v = s.u64();
            match k {
                0 => { real.push(Array::with_capacity(&view, s.below(6) as usize)); shadow.push(vec![]); }
                1 => {
                    let n = s.below(9) as usize;
                    let d: Vec<u64> = (0..n).map(|i| v.wrapping_add(i as u64)).collect();
                    real.push(Array::from_slice(&view, &d));
                    shadow.push(d);
                }
                2 => {
                    // a prefix that shares what it is a prefix of
                    let i = s.below(real.len() as u64) as usize;
                    let n = s.below(12) as usize;
                    let c = real[i].clone_with_length(n);
                    ck!(c.len() == n.min(shadow[i].len()) && c.as_slice() == &shadow[i][..c.len()], "a prefix has the items at its start");
                }
                3 => {
                    let i = s.below(real.len() as u64) as usize;
                    ck!(real[i].pop() == shadow[i].pop(), "pop gives the last item");
                }
                4 | 5 => {
                    let i = s.below(real.len() as u64) as usize;
                    let j = s.below(shadow[i].len() as u64 + 2) as usize;
                    ck!(real[i].get(j) == shadow[i].get(j).copied(), "get gives the item at the index");
                    ck!(real[i].set(j, v).is_ok() == (j < shadow[i].len()), "set works exactly within the length");
                    if j < shadow[i].len() { shadow[i][j] = v; }
                }
                _ => {
                    let i = s.below(real.len() as u64) as usize;
                    real[i].push(&view, v);
                    shadow[i].push(v);
                }
            }
            for (a, b) in real.iter().zip(&shadow) {
                ck!(a.len() == b.len() && a.as_slice() == &b[..] && a.top() == b.last().copied() && a.is_empty() == b.is_empty(), "an array holds what was put in it");
            }
        }
    }

    fn frames(s) {
        let heap = Heap::new();
        let view = MutatorHeapView::new(&heap);
        let root = view.alloc(BcEnvFrame::default()).unwrap().as_ptr();
        let globals = view.alloc(BcEnvFrame::default()).unwrap().as_ptr();
        let mut w = W { view, root, slots: vec![], fs: vec![], n: 0 };
        let prog = BytecodeProgram::default();
        let decoded = DecodedProgram { branches: vec![40, 41, 42, 43], ..Default::default() };
        let steps = s.below(14) + 3;
        for _ in 0..steps {
            let k = if w.fs.is_empty() { s.below(4) } else { s.below(16) };
            let next = if w.fs.is_empty() || s.below(5) == 0 { None } else { Some(s.below(w.fs.len() as u64) as usize) };
            let note = s.below(50) as u32;
            match k {
                0..=3 => {
                    // storage of its own
                    let big = s.below(12) == 0;
                    let n = if big { 250 + s.below(12) } else { s.below(7) } as usize;
                    let mut array = Array::with_capacity(&view, s.below(n as u64 + 1) as usize);
                    let mut own = vec![];
                    let mut vals = vec![];
                    for _ in 0..n {
                        let (i, v) = w.slot();
                        own.push(i);
                        array.push(&view, v.clone());
                        vals.push(v);
                    }
                    let p = w.parent(next);
                    let at = match k {
                        0 if n == 1 => view.from_value(vals[0].clone(), p, Smid::from(note)).unwrap(),
                        1 => view.from_values(vals.iter().cloned(), n, p, Smid::from(note)).unwrap(),
                        2 => view.saturate(&BcClosure::new_annotated_lambda(9, n as u8, p, Smid::from(note)), &vals).unwrap().env(),
                        _ => view.alloc(BcEnvFrame::new(array.clone(), Smid::from(note), Some(p))).unwrap().as_ptr(),
                    };
                    w.fs.push(F { at, store: own.clone(), array, own, next, note });
                }
                4 | 5 => {
                    // part of the storage of another
                    let f = s.below(w.fs.len() as u64) as usize;
                    let m = w.fs[f].store.len();
                    if m == 0 || w.fs[f].array.len() != m || !std::ptr::eq(w.view.scoped(w.fs[f].at).shared_bindings_full().as_slice().as_ptr(), w.fs[f].array.as_slice().as_ptr()) { continue; }
                    let n = s.below(4) as usize + 1;
                    let map: Vec<u8> = (0..n).map(|_| s.below(m.min(256) as u64) as u8).collect();
                    let own: Vec<usize> = map.iter().map(|i| w.fs[f].store[*i as usize]).collect();
                    let at = view.alloc(BcEnvFrame::new_remapped(w.fs[f].array.clone(), &map, Smid::from(note), Some(w.parent(next)))).unwrap().as_ptr();
                    let (store, array) = (w.fs[f].store.clone(), w.fs[f].array.clone());
                    w.fs.push(F { at, store, array, own, next, note });
                }
                6..=9 => {
                    let f = s.below(w.fs.len() as u64) as usize;
                    let i = s.below(w.depth(f) as u64 + 2) as usize;
                    let (n, v) = w.fresh();
                    let r = w.view.scoped(w.fs[f].at).update(&w.view, i, v);
                    let t = w.find(f, i);
                    ck!(r.is_ok() == t.is_some(), "an update works exactly for the variables there are");
                    if let Some(t) = t { w.slots[t] = n; }
                }
                _ => {
                    // a constructor arrives at a branch
                    let f = s.below(w.fs.len() as u64) as usize;
                    let d = w.depth(f);
                    let n = s.below(7) as usize;
                    let mut consts = vec![];
                    let mut args = vec![];
                    // slot shared, or a copy
                    let mut want: Vec<(Option<usize>, u32)> = vec![];
                    let local = s.below(3) > 0;
                    let seq = s.below(3) == 0;
                    for j in 0..n {
                        let kind = if local { 0 } else { s.below(3) };
                        if kind == 2 || d == 0 {
                            let (x, _) = w.fresh();
                            consts.push(Ref::V(Native::Prng(x as u64)));
                            args.push(DecodedRef::Value(consts.len() as u32 - 1));
                            want.push((None, x));
                        } else {
                            let reach = if local { w.fs[f].own.len().max(1).min(d) } else { d };
                            let i = if seq { j % reach } else { s.below(reach as u64) as usize };
                            args.push(DecodedRef::Local(i as u32));
                            let t = w.find(f, i).unwrap();
                            want.push((Some(t), w.slots[t]));
                        }
                    }
                    let own = w.fs[f].own.clone();
                    let physical = |j: usize| match args[j] { DecodedRef::Local(i) if (i as usize) < own.len() => w.fs[f].store.iter().position(|x| *x == own[i as usize]).map_or(false, |p| p <= 255), _ => false };
                    let shared = n <= 4 && (0..n).all(physical);
                    let parent = w.parent(next);
                    let mut state = BcMachineState::new(BcValue::Closure(BcClosure::new(7, w.fs[f].at)), globals, root, consts);
                    state.annotation = Smid::from(note);
                    let tag = s.below(4) as u8;
                    if s.bool() {
                        state.stack.push(BcContinuation::Branch { min_tag: 0, branch_table: Array::from_slice(&view, &[Some(40), Some(41), Some(42), Some(43)]), fallback: None, environment: parent, annotation: Smid::default() });
                    } else {
                        state.stack.push(BcContinuation::BranchPredecoded { min_tag: 0, branch_start: 0, branch_len: 4, fallback: eucalypt::eval::bytecode::NO_BRANCH, environment: parent, annotation: Smid::default() });
                    }
                    ck!(return_data(&mut state, view, &prog, &decoded, tag, &args).is_ok(), "a branch is found");
                    let BcValue::Closure(c) = &state.current else { return crate::src::Res::Fail("a branch is entered"); };
                    ck!(c.code() == 40 + tag as u32 && c.arity() == 0 && !c.update(), "the branch for the tag is entered");
                    if n == 0 {
                        ck!(c.env() == parent, "a branch without fields runs in the environment of the case");
                        continue;
                    }
                    let at = c.env();
                    let mut own = vec![];
                    for (t, x) in &want {
                        if shared { own.push(t.unwrap()); } else { w.slots.push(*x); own.push(w.slots.len() - 1); }
                    }
                    let array = w.view.scoped(at).shared_bindings_full();
                    let (store, array) = if shared { (w.fs[f].store.clone(), w.fs[f].array.clone()) } else { (own.clone(), array) };
                    w.fs.push(F { at, store, array, own, next, note });
                }
            }
            ck!(w.agrees(), "every variable of every frame has the value last given to its slot");
        }
    }

    fn saturation(s) {
        let heap = Heap::new();
        let view = MutatorHeapView::new(&heap);
        let root = view.alloc(BcEnvFrame::default()).unwrap().as_ptr();
        let n = s.below(9) as usize;
        let vals: Vec<BcValue> = (0..n).map(|i| BcValue::Closure(BcClosure::new(100 + i as u32, root))).collect();
        let outer: Vec<BcValue> = (0..s.below(4) as usize).map(|i| BcValue::Closure(BcClosure::new(200 + i as u32, root))).collect();
        let env = view.from_values(outer.iter().cloned(), outer.len(), root, Smid::default()).unwrap();
        let (code, arity, note) = (s.u32(), s.u8(), s.u32());
        let f = BcClosure::new_annotated_lambda(code, arity, env, Smid::from(note));
        ck!(f.code() == code && f.arity() == arity && f.annotation() == Smid::from(note) && !f.update() && f.env() == env, "a lambda is what it was made from");
        let c = if s.bool() { view.saturate(&f, &vals) } else { view.saturate_with_array(&f, Array::from_slice(&view, &vals)) };
        let Ok(c) = c else { return crate::src::Res::Fail("an allocation succeeds"); };
        ck!(c.code() == code && c.arity() == 0 && !c.update() && c.annotation() == Smid::from(note), "the saturated closure runs the function's code");
        let want: Vec<Option<u32>> = (0..n as u32).map(|i| Some(100 + i)).chain((0..outer.len() as u32).map(|i| Some(200 + i))).chain([None]).collect();
        let got: Vec<Option<u32>> = (0..want.len()).map(|i| view.scoped(c.env()).get(&view, i).and_then(|v| mark(&v))).collect();
        ck!(got == want, "it sees its arguments in order and then the variables of the function");
    }
}
