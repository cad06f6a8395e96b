//! Stand-in for `dyn-clone`: `Clone` for trait objects.
#[doc(hidden)]
pub mod __private {
    pub use std::boxed::Box;
    pub struct Private;
}
use __private::Private;

pub trait DynClone {
    #[doc(hidden)]
    fn __clone_box(&self, _: Private) -> *mut ();
}

impl<T: Clone> DynClone for T {
    fn __clone_box(&self, _: Private) -> *mut () {
        Box::<T>::into_raw(Box::new(self.clone())) as *mut ()
    }
}

pub fn clone<T: Clone>(t: &T) -> T {
    t.clone()
}

pub fn clone_box<T: ?Sized + DynClone>(t: &T) -> Box<T> {
    let mut fat_ptr = t as *const T;
    unsafe {
        // replace the data pointer of the (possibly fat) pointer
        let data_ptr = &mut fat_ptr as *mut *const T as *mut *mut ();
        *data_ptr = <T as DynClone>::__clone_box(t, Private);
        Box::from_raw(fat_ptr as *mut T)
    }
}

#[macro_export]
macro_rules! clone_trait_object {
    ($t:path) => {
        impl ::std::clone::Clone for $crate::__private::Box<dyn $t> {
            fn clone(&self) -> Self {
                $crate::clone_box(&**self)
            }
        }
    };
}
