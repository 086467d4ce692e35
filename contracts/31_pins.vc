@@ the four downcasts of the storage and resource trait objects: verified text calls trusted shim functions instead,
@@ which is only right while the bodies read exactly like this
@pin component::dyn ComponentStorage::downcast_ref
{ & * ( self as * const dyn ComponentStorage as * const T ) }
@pin component::dyn ComponentStorage::downcast_mut
{ & mut * ( self as * mut dyn ComponentStorage as * mut T ) }
@pin resource::dyn Resource::downcast_ref
{ & * ( self as * const dyn Resource as * const T ) }
@pin resource::dyn Resource::downcast_mut
{ & mut * ( self as * mut dyn Resource as * mut T ) }
