//! Stand-in for owning_ref: OwningHandle only. Like the original, drops the handle before its owner.
use std::ops::{Deref, DerefMut};

/// # Safety
/// The address a value dereferences to must not change when the value is moved.
pub unsafe trait StableAddress: Deref {}
unsafe impl<T: ?Sized> StableAddress for Box<T> {}
unsafe impl<T: ?Sized> StableAddress for std::sync::Arc<T> {}
unsafe impl<T: ?Sized> StableAddress for std::rc::Rc<T> {}

pub struct OwningHandle<O: StableAddress, H: Deref> {
    handle: H,
    owner: O,
}

impl<O: StableAddress, H: Deref> OwningHandle<O, H> {
    pub fn new_with_fn<F: FnOnce(*const O::Target) -> H>(o: O, f: F) -> Self {
        let h = {
            let target: &O::Target = &o;
            f(target as *const O::Target)
        };
        OwningHandle { handle: h, owner: o }
    }
    pub fn try_new<F: FnOnce(*const O::Target) -> Result<H, E>, E>(o: O, f: F) -> Result<Self, E> {
        let h = {
            let target: &O::Target = &o;
            f(target as *const O::Target)?
        };
        Ok(OwningHandle { handle: h, owner: o })
    }
    pub fn as_owner(&self) -> &O {
        &self.owner
    }
    pub fn into_owner(self) -> O {
        self.owner
    }
}
impl<O: StableAddress, H: Deref> Deref for OwningHandle<O, H> {
    type Target = H::Target;
    fn deref(&self) -> &H::Target {
        &self.handle
    }
}
impl<O: StableAddress, H: DerefMut> DerefMut for OwningHandle<O, H> {
    fn deref_mut(&mut self) -> &mut H::Target {
        &mut self.handle
    }
}
