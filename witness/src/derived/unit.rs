//! Types without fields.
use super::*;
#[derive(Clone, Copy, Default, SlabItem)]
pub struct Unit;
#[derive(Clone, Copy, Default, SlabItem)]
pub struct EmptyNamed {}
#[derive(Clone, Copy, Default, SlabItem)]
pub struct EmptyTuple();
codec!(d_unit, [], [], Unit);
codec!(d_empty_named, [], [], EmptyNamed);
codec!(d_empty_tuple, [], [], EmptyTuple);
