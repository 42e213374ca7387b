//! The custom types of the monitored StdSystem host.
use netsblox_vm::gc::*;
use netsblox_vm::project::*;
use netsblox_vm::runtime::*;
use netsblox_vm::std_system::StdSystem;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NatType { Nat }
#[derive(Debug)]
pub struct Nat;
impl GetType for Nat { type Output = NatType; fn get_type(&self) -> NatType { NatType::Nat } }
pub struct EState;
impl From<EntityKind<'_, '_, C, Sys>> for EState { fn from(_: EntityKind<'_, '_, C, Sys>) -> Self { EState } }
pub struct PState;
impl From<ProcessKind<'_, '_, C, Sys>> for PState { fn from(_: ProcessKind<'_, '_, C, Sys>) -> Self { PState } }
impl Unwindable for PState { type UnwindPoint = (); fn get_unwind_point(&self) {} fn unwind_to(&mut self, _: &()) {} }
pub struct C;
pub type Sys = StdSystem<C>;
impl CustomTypes<Sys> for C {
    type NativeValue = Nat;
    type Intermediate = SimpleValue;
    type EntityState = EState;
    type ProcessState = PState;
    fn from_intermediate<'gc>(mc: &Mutation<'gc>, v: SimpleValue) -> Value<'gc, C, Sys> { Value::from_simple(mc, v) }
}
#[derive(Collect)]
#[collect(no_drop)]
pub struct Env<'gc> { pub proj: Gc<'gc, RefLock<Project<'gc, C, Sys>>> }
pub type EnvArena = Arena<Rootable![Env<'_>]>;

/// a canonical text of a value
pub fn canon(v: &SimpleValue) -> String {
    match v {
        SimpleValue::Bool(b) => format!("b:{b}"),
        SimpleValue::Number(n) => format!("n:{}", n.get()),
        SimpleValue::Text(t) => format!("t:{t:?}"),
        SimpleValue::List(l) => format!("[{}]", l.iter().map(canon).collect::<Vec<_>>().join(",")),
        SimpleValue::Image(i) => format!("image({:?} {:?} {:?})", i.name, i.center.map(|c| (c.0.get(), c.1.get())), i.content),
        SimpleValue::Audio(a) => format!("audio({:?} {:?})", a.name, a.content),
    }
}
