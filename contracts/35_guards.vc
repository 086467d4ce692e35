@items component
impl<'a, T> StorageRead<'a, T> {
    pub open spec fn inv(&self) -> bool { self.ptr.wf() }
    pub open spec fn ids(&self) -> Seq<Id> { self.ptr.ids() }
    pub open spec fn vals(&self) -> Seq<T> { self.ptr.vals() }
    pub open spec fn at(&self, e: Id) -> T { self.ptr.vals()[find(self.ptr.ids(), e)] }
}
impl<'a, T> StorageWrite<'a, T> {
    pub open spec fn inv(&self) -> bool { self.ptr.cur().wf() }
    pub open spec fn ids(&self) -> Seq<Id> { self.ptr.cur().ids() }
    pub open spec fn vals(&self) -> Seq<T> { self.ptr.cur().vals() }
    pub open spec fn at(&self, e: Id) -> T { self.ptr.cur().vals()[find(self.ptr.cur().ids(), e)] }
    /* what a write guard must keep: the entities of the storage, and the storage it stands for */
    pub open spec fn keeps(&self, o: &Self) -> bool { self.inv() && self.ids() == o.ids() && self.vals().len() == o.vals().len() && self.ptr.fin() == o.ptr.fin() && self._lock == o._lock }
}
@fn component::StorageRead::from_lock
@requires
lock.tag() == tid::<T>()
@ensures
r.ptr.ids() == lock.ids(), r.ptr.avals() == lock.vals(), r.ptr.wf() == lock.wf()
@fn component::StorageRead::count
@requires
self.inv()
@ensures
r == self.ids().len(), r == self.vals().len()
@start
proof { lemma_ss_all(*self.ptr); }
@fn component::StorageRead::exist
@requires
self.inv()
@ensures
r == self.ids().contains(id)
@start
proof { lemma_ss_all(*self.ptr); }
@fn component::StorageRead::get
@requires
self.inv()
@ensures
r is Some <==> self.ids().contains(id), r is Some ==> *r->Some_0 == self.at(id)
@start
proof { lemma_ss_all(*self.ptr); }
@fn component::StorageRead::get_unchecked
@requires
self.inv(), self.ids().contains(id)
@ensures
*r == self.at(id)
@start
proof { lemma_ss_all(*self.ptr); }
@fn component::StorageRead::is_empty
@requires
self.inv()
@ensures
r == (self.ids().len() == 0)
@start
proof { lemma_ss_all(*self.ptr); }
@fn component::StorageRead::data
@ensures
r@ == self.vals()
@fn component::StorageWrite::from_lock
@requires
old(lock).tag() == tid::<T>()
@ensures
r.ptr.cur().ids() == old(lock).ids(), r.ptr.cur().avals() == old(lock).vals(), r.ptr.cur().wf() == old(lock).wf(),
r._lock.tag() == old(lock).tag(), r._lock.ids() == r.ptr.fin().ids(), r._lock.vals() == r.ptr.fin().avals(), r._lock.wf() == r.ptr.fin().wf(),
*final(r._lock) == *final(lock),
@fn component::StorageWrite::count
@requires
self.inv()
@ensures
r == self.ids().len(), r == self.vals().len()
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::StorageWrite::exist
@requires
self.inv()
@ensures
r == self.ids().contains(id)
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::StorageWrite::get
@requires
self.inv()
@ensures
r is Some <==> self.ids().contains(id), r is Some ==> *r->Some_0 == self.at(id)
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::StorageWrite::get_unchecked
@requires
self.inv(), self.ids().contains(id)
@ensures
*r == self.at(id)
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::StorageWrite::is_empty
@requires
self.inv()
@ensures
r == (self.ids().len() == 0)
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::StorageWrite::get_mut
@requires
old(self).inv()
@ensures
final(self).keeps(old(self)), r is Some <==> old(self).ids().contains(id),
r is None ==> final(self).vals() == old(self).vals(),
r is Some ==> *r->Some_0 == old(self).at(id) && final(self).vals() == old(self).vals().update(find(old(self).ids(), id), *final(r->Some_0)),
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::StorageWrite::get_unchecked_mut
@requires
old(self).inv(), old(self).ids().contains(id)
@ensures
final(self).keeps(old(self)), *r == old(self).at(id), final(self).vals() == old(self).vals().update(find(old(self).ids(), id), *final(r)),
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::StorageWrite::data
@ensures
r@ == self.vals()
@fn component::StorageWrite::data_mut
@requires
old(self).inv()
@ensures
/* the slice keeps its length: a language fact about `&mut [T]` */
final(r)@.len() == r@.len() ==> final(self).keeps(old(self)), r@ == old(self).vals(), final(self).vals() == final(r)@,
@start
proof { lemma_ss_all(self.ptr.cur()); }
@fn component::ComponentRead::new
@ensures
r.id == id, r.storage == storage
@fn component::ComponentRead@Deref::deref
@requires
self.storage.inv(), self.storage.ids().contains(self.id)
@ensures
*r == self.storage.at(self.id)
@fn component::ComponentWrite::new
@ensures
r.id == id, r.storage == storage
@fn component::ComponentWrite@Deref::deref
@requires
self.storage.inv(), self.storage.ids().contains(self.id)
@ensures
*r == self.storage.at(self.id)
@fn component::ComponentWrite@DerefMut::deref_mut
@requires
old(self).storage.inv(), old(self).storage.ids().contains(old(self).id)
@ensures
final(self).storage.keeps(&old(self).storage), final(self).id == old(self).id, *r == old(self).storage.at(old(self).id),
final(self).storage.vals() == old(self).storage.vals().update(find(old(self).storage.ids(), old(self).id), *final(r)),
@items resource
impl<'a, T> ResourceRead<'a, T> {
    pub open spec fn now(&self) -> Box<dyn Resource> { *self.lock }
    pub open spec fn inv(&self) -> bool { rtag(self.now()) == tid::<T>() }
}
impl<'a, T> ResourceWrite<'a, T> {
    pub open spec fn now(&self) -> Box<dyn Resource> { *self.lock }
    pub open spec fn inv(&self) -> bool { rtag(self.now()) == tid::<T>() }
}
@fn resource::ResourceRead::new
@ensures
r.lock == lock
@fn resource::ResourceRead@Deref::deref
@requires
self.inv()
@ensures
embed(*r) == rval(self.now())
@fn resource::ResourceWrite::new
@ensures
r.now() == *old(lock), *final(r.lock) == *final(lock)
@fn resource::ResourceWrite@Deref::deref
@requires
self.inv()
@ensures
embed(*r) == rval(self.now())
@fn resource::ResourceWrite@DerefMut::deref_mut
@requires
old(self).inv()
@ensures
final(self).inv(), embed(*r) == rval(old(self).now()), embed(*final(r)) == rval(final(self).now()), *final(final(self).lock) == *final(old(self).lock),
