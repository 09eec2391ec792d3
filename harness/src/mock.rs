//! A machine that satisfies the part of the intrinsic ABI the contracts use.
//! Anything else panics with "mock: outside contract", which the driver
//! reports as undecided, never as a violation.
use eucalypt::common::sourcemap::Smid;
use eucalypt::eval::emit::Emitter;
use eucalypt::eval::error::ExecutionError;
use eucalypt::eval::machine::intrinsic::*;
use eucalypt::eval::memory::mutator::MutatorHeapView;
use eucalypt::eval::memory::symbol::SymbolPool;
use eucalypt::eval::memory::syntax::{Native, Ref};
use eucalypt::eval::stg::tags::Tag;
use serde_json::Number;

pub struct Mock { pub args: [Number;2], pub ret: Option<Native>, pub retb: Option<bool>, pub rets: u32 }
macro_rules! no { () => { panic!("mock: outside contract") } }
impl IntrinsicMachine for Mock {
    fn rcache(&mut self) -> &mut lru::LruCache<String, regex::Regex> { no!() }
    fn symbol_pool(&self) -> &SymbolPool { no!() }
    fn symbol_pool_mut(&mut self) -> &mut SymbolPool { no!() }
    fn annotation(&self) -> Smid { Smid::default() }
    fn resolve_native(&self, _v: MutatorHeapView<'_>, arg: &Ref) -> Result<Native, ExecutionError> {
        match arg { Ref::L(n) => Ok(Native::Num(self.args[*n].clone())), _ => no!() }
    }
    fn return_native(&mut self, _v: MutatorHeapView<'_>, n: Native) -> Result<(), ExecutionError> { self.rets += 1; core::mem::forget(self.ret.replace(n)); Ok(()) }
    fn return_unit(&mut self, _v: MutatorHeapView<'_>) -> Result<(), ExecutionError> { no!() }
    fn return_boxed_num(&mut self, _v: MutatorHeapView<'_>, n: Number) -> Result<(), ExecutionError> { self.rets += 1; core::mem::forget(self.ret.replace(Native::Num(n))); Ok(()) }
    fn return_bool(&mut self, _v: MutatorHeapView<'_>, b: bool) -> Result<(), ExecutionError> { self.rets += 1; self.retb = Some(b); Ok(()) }
    fn resolve_closure(&self, _: MutatorHeapView<'_>, _: &Ref) -> Result<AbiClosure, ExecutionError> { no!() }
    fn resolve_callable_closure(&self, _: MutatorHeapView<'_>, _: &Ref) -> Result<AbiClosure, ExecutionError> { no!() }
    fn set_result(&mut self, _: AbiClosure) -> Result<(), ExecutionError> { no!() }
    fn tail_apply_global(&mut self, _: MutatorHeapView<'_>, _: usize, _: &[Ref]) -> Result<(), ExecutionError> { no!() }
    fn force(&mut self, _: AbiClosure) -> Result<AbiClosure, ExecutionError> { no!() }
    fn data_tag(&self, _: MutatorHeapView<'_>, _: &AbiClosure) -> Option<Tag> { no!() }
    fn data_field(&self, _: MutatorHeapView<'_>, _: &AbiClosure, _: usize) -> Option<AbiClosure> { no!() }
    fn field_native(&self, _: MutatorHeapView<'_>, _: &AbiClosure, _: usize) -> Option<Native> { no!() }
    fn value_native(&self, _: MutatorHeapView<'_>, _: &AbiClosure) -> Option<Native> { no!() }
    fn native_value(&self, _: MutatorHeapView<'_>, _: Native) -> Result<AbiClosure, ExecutionError> { no!() }
    fn data_value(&self, _: MutatorHeapView<'_>, _: Tag, _: &[AbiClosure]) -> Result<AbiClosure, ExecutionError> { no!() }
    fn meta_value(&self, _: MutatorHeapView<'_>, _: AbiClosure, _: AbiClosure) -> Result<AbiClosure, ExecutionError> { no!() }
    fn return_closure_list(&mut self, _: MutatorHeapView<'_>, _: Vec<AbiClosure>) -> Result<(), ExecutionError> { no!() }
    fn apply1_thunk(&self, _: MutatorHeapView<'_>, _: AbiClosure, _: AbiClosure) -> Result<AbiClosure, ExecutionError> { no!() }
    fn apply2_thunk(&self, _: MutatorHeapView<'_>, _: AbiClosure, _: AbiClosure, _: AbiClosure) -> Result<AbiClosure, ExecutionError> { no!() }
    fn bif_tail_thunk(&self, _: MutatorHeapView<'_>, _: u8, _: u64) -> Result<AbiClosure, ExecutionError> { no!() }
    fn start_capture(&mut self, _: &str) -> Result<(), ExecutionError> { no!() }
    fn push_capture_end(&mut self, _: MutatorHeapView<'_>) -> Result<(), ExecutionError> { no!() }
    fn take_capture_result(&mut self) -> Result<String, ExecutionError> { no!() }
    fn gc_root_len(&self) -> usize { no!() }
    fn gc_root_push(&mut self, _: AbiClosure) -> usize { no!() }
    fn gc_root_get(&self, _: usize) -> AbiClosure { no!() }
    fn gc_root_set(&mut self, _: usize, _: AbiClosure) { no!() }
    fn gc_root_truncate(&mut self, _: usize) { no!() }
    fn take_stripped_meta(&mut self) -> Option<AbiClosure> { no!() }
    fn test_mode(&self) -> bool { no!() }
    fn record_diagnostic(&mut self, _: String) { no!() }
}
pub struct NoEmit;
impl Emitter for NoEmit { fn emit(&mut self, _: eucalypt::eval::emit::Event) -> Result<(), eucalypt::export::error::RenderError> { no!() } }

pub enum Out { Num(Number), Bool(bool), Err, Bad }

pub fn run<I: StgIntrinsic>(i: &I, a: Number, b: Number) -> Out {
    let mut m = Mock{args:[a,b],ret:None,retb:None,rets:0};
    let mut e = NoEmit;
    let view = unsafe { MutatorHeapView::from_raw_heap(core::ptr::NonNull::dangling().as_ptr()) };
    let args=[Ref::L(0),Ref::L(1)];
    let r = i.execute(&mut m, view, &mut e, &args);
    let ok = r.is_ok();
    core::mem::forget(r);
    core::mem::forget(args);
    let o = if !ok { Out::Err }
    else if m.rets != 1 { Out::Bad }
    else if let Some(b) = m.retb { Out::Bool(b) }
    else { match &m.ret { Some(Native::Num(n)) => Out::Num(n.clone()), _ => Out::Bad }};
    core::mem::forget(m);
    o
}

