@@ written by tools/mkexpected.py: the names each function binds; when one is renamed, the ghost text follows
@binders component::ComponentRead::new | id storage
@binders component::ComponentWrite::new | id storage
@binders component::SparseSet<EntityId,T>@ComponentStorage::has | entity_id
@binders component::SparseSet<EntityId,T>@ComponentStorage::id | index
@binders component::SparseSet<EntityId,T>@ComponentStorage::index | entity_id
@binders component::SparseSet<EntityId,T>@ComponentStorage::remove | entity_id
@binders component::SparseSet<EntityId,T>@ComponentStorage::swap_by_index | index_a index_b
@binders component::StorageRead::count | sparse_set
@binders component::StorageRead::data | sparse_set
@binders component::StorageRead::exist | id sparse_set
@binders component::StorageRead::from_lock | lock ptr
@binders component::StorageRead::get | id sparse_set
@binders component::StorageRead::get_unchecked | id sparse_set
@binders component::StorageRead::is_empty | sparse_set
@binders component::StorageWrite::count | sparse_set
@binders component::StorageWrite::data | sparse_set
@binders component::StorageWrite::data_mut | sparse_set
@binders component::StorageWrite::exist | id sparse_set
@binders component::StorageWrite::from_lock | lock ptr
@binders component::StorageWrite::get | id sparse_set
@binders component::StorageWrite::get_mut | id sparse_set
@binders component::StorageWrite::get_unchecked | id sparse_set
@binders component::StorageWrite::get_unchecked_mut | id sparse_set
@binders component::StorageWrite::is_empty | sparse_set
@binders entity::Entities::attach | components count components type_id ids id sparse_set sparse_set group data type_a type_b comp_a comp_b id data type_a type_b comp_a comp_b id data type_a type_b comp_a comp_b id
@binders entity::Entities::new | world ids borrow_entity_manager
@binders entity::Entity::attach | component world type_id storage sparse_set group data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b
@binders entity::Entity::detach | world type_id group data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b storage sparse_set
@binders entity::Entity::new | world borrow_entity_manager entity_id
@binders entity::EntityManager::allocate | last_id last_id new_id id id
@binders entity::EntityManager::allocate_n | n start_id end_id start_index end_index i id id start_id end_id
@binders entity::EntityManager::has | entity_id
@binders entity::EntityManager::remove | entity_id entity_id_ index the_last_one_id
@binders group::Group::eq | other x y x y x y
@binders group::Group::in_components | id comp_a comp_b data data data
@binders group::Group::in_group | id comp_a comp_b data data data
@binders group::Group::len | data data data
@binders group::Group::owned | type_id data data data
@binders group::Group::owning | data data data
@binders group::Group::types | data data data
@binders group::full_owning::FullOwningData::add | id comp_a comp_b index_a index_b
@binders group::full_owning::FullOwningData::in_components | id comp_a comp_b
@binders group::full_owning::FullOwningData::in_group | id comp_a comp_b index_a index_b
@binders group::full_owning::FullOwningData::make | comp_a comp_b len_a len_b index_a id index_b index_b id index_a
@binders group::full_owning::FullOwningData::owned | type_id
@binders group::full_owning::FullOwningData::remove | id comp_a comp_b index_a index_b
@binders group::full_owning::FullOwningData@PartialEq::eq | other
@binders group::full_owning::query::FullOwning<&A,&B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders group::full_owning::query::FullOwning<&A,&mut B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders group::full_owning::query::FullOwning<&mut A,&B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders group::full_owning::query::FullOwning<&mut A,&mut B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders group::full_owning::query::IterMutMut@Iterator::next | sparse_set_a sparse_set_b data_a data_b
@binders group::full_owning::query::IterMutMut@Iterator::size_hint | rem
@binders group::full_owning::query::IterMutMut@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::full_owning::query::IterMutMut@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::full_owning::query::IterMutRef@Iterator::next | sparse_set_a sparse_set_b data_a data_b
@binders group::full_owning::query::IterMutRef@Iterator::size_hint | rem
@binders group::full_owning::query::IterMutRef@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::full_owning::query::IterMutRef@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::full_owning::query::IterRefMut@Iterator::next | sparse_set_a sparse_set_b data_a data_b
@binders group::full_owning::query::IterRefMut@Iterator::size_hint | rem
@binders group::full_owning::query::IterRefMut@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::full_owning::query::IterRefMut@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::full_owning::query::IterRefRef@Iterator::next | sparse_set_a sparse_set_b data_a data_b
@binders group::full_owning::query::IterRefRef@Iterator::size_hint | rem
@binders group::full_owning::query::IterRefRef@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::full_owning::query::IterRefRef@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::non_owning::NonOwningData::add | id comp_a comp_b
@binders group::non_owning::NonOwningData::in_components | id comp_a comp_b
@binders group::non_owning::NonOwningData::in_group | id comp_a comp_b
@binders group::non_owning::NonOwningData::make | comp_a comp_b len_a len_b index_a entity_id index_b entity_id
@binders group::non_owning::NonOwningData::owned | _type_id
@binders group::non_owning::NonOwningData::remove | id comp_a comp_b
@binders group::non_owning::NonOwningData@PartialEq::eq | other
@binders group::non_owning::query::IterMutMut@Iterator::next | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterMutMut@Iterator::size_hint | rem
@binders group::non_owning::query::IterMutMut@QueryIterator::from_id | id group sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterMutMut@QueryIterator::next_with_id | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterMutRef@Iterator::next | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterMutRef@Iterator::size_hint | rem
@binders group::non_owning::query::IterMutRef@QueryIterator::from_id | id group sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterMutRef@QueryIterator::next_with_id | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterRefMut@Iterator::next | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterRefMut@Iterator::size_hint | rem
@binders group::non_owning::query::IterRefMut@QueryIterator::from_id | id group sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterRefMut@QueryIterator::next_with_id | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterRefRef@Iterator::next | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterRefRef@Iterator::size_hint | rem
@binders group::non_owning::query::IterRefRef@QueryIterator::from_id | id group sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::IterRefRef@QueryIterator::next_with_id | group id sparse_set_a sparse_set_b data_a data_b
@binders group::non_owning::query::NonOwning<&A,&B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group group_data data group_data ptr_group
@binders group::non_owning::query::NonOwning<&A,&mut B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group group_data data group_data ptr_group
@binders group::non_owning::query::NonOwning<&mut A,&B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group group_data data group_data ptr_group
@binders group::non_owning::query::NonOwning<&mut A,&mut B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group group_data data group_data ptr_group
@binders group::partial_owning::PartialOwningData::add | id comp_a comp_b index_a
@binders group::partial_owning::PartialOwningData::in_components | id comp_a comp_b
@binders group::partial_owning::PartialOwningData::in_group | id comp_a comp_b index_a
@binders group::partial_owning::PartialOwningData::make | comp_a comp_b index entity_id
@binders group::partial_owning::PartialOwningData::owned | type_id
@binders group::partial_owning::PartialOwningData::remove | id comp_a comp_b index_a
@binders group::partial_owning::PartialOwningData@PartialEq::eq | other
@binders group::partial_owning::query::IterMutMut@Iterator::next | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::IterMutMut@Iterator::size_hint | rem
@binders group::partial_owning::query::IterMutMut@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::partial_owning::query::IterMutMut@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::IterMutRef@Iterator::next | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::IterMutRef@Iterator::size_hint | rem
@binders group::partial_owning::query::IterMutRef@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::partial_owning::query::IterMutRef@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::IterRefMut@Iterator::next | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::IterRefMut@Iterator::size_hint | rem
@binders group::partial_owning::query::IterRefMut@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::partial_owning::query::IterRefMut@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::IterRefRef@Iterator::next | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::IterRefRef@Iterator::size_hint | rem
@binders group::partial_owning::query::IterRefRef@QueryIterator::from_id | id sparse_set_a sparse_set_b a b
@binders group::partial_owning::query::IterRefRef@QueryIterator::next_with_id | sparse_set_a sparse_set_b id data_a data_b
@binders group::partial_owning::query::PartialOwning<&A,&B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders group::partial_owning::query::PartialOwning<&A,&mut B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders group::partial_owning::query::PartialOwning<&mut A,&B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders group::partial_owning::query::PartialOwning<&mut A,&mut B>@Queryable::query | world type_id_a type_id_b storage_a storage_b sparse_set_a sparse_set_b ptr_a ptr_b group length
@binders query::&T@Queryable::query | world type_id storage sparse_set ptr
@binders query::&mut T@Queryable::query | world type_id storage sparse_set ptr
@binders query::Box@QueryIterator::from_id | id
@binders query::IterMut@Iterator::next | sparse_set data
@binders query::IterMut@Iterator::size_hint | rem
@binders query::IterMut@QueryIterator::from_id | id sparse_set
@binders query::IterMut@QueryIterator::next_with_id | sparse_set id data
@binders query::IterRef@Iterator::next | sparse_set data
@binders query::IterRef@Iterator::size_hint | rem
@binders query::IterRef@QueryIterator::from_id | id sparse_set
@binders query::IterRef@QueryIterator::next_with_id | sparse_set id data
@binders query::with::(A,B)@Queryable::query | world iter_a iter_b
@binders query::with::(A,B,C)@Queryable::query | world iter_a iter_b iter_c
@binders query::with::(A,B,C,D)@Queryable::query | world iter_a iter_b iter_c iter_d
@binders query::with::(A,B,C,D,E)@Queryable::query | world iter_a iter_b iter_c iter_d iter_e
@binders query::with::WithIter3@Iterator::next | id a b c
@binders query::with::WithIter3@QueryIterator::from_id | id a b c
@binders query::with::WithIter3@QueryIterator::next_with_id | id a b c
@binders query::with::WithIter4@Iterator::next | id a b c d
@binders query::with::WithIter4@QueryIterator::from_id | id a b c d
@binders query::with::WithIter4@QueryIterator::next_with_id | id a b c d
@binders query::with::WithIter5@Iterator::next | id a b c d e
@binders query::with::WithIter5@QueryIterator::from_id | id a b c d e
@binders query::with::WithIter5@QueryIterator::next_with_id | id a b c d e
@binders query::with::WithIter@Iterator::next | id a b
@binders query::with::WithIter@QueryIterator::from_id | id a b
@binders query::with::WithIter@QueryIterator::next_with_id | id a b
@binders query::without::(A,Without<B>)@Queryable::query | world iter_a iter_b
@binders query::without::(Without<A>,B)@Queryable::query | world iter_a iter_b
@binders query::without::WithoutIterLeft@Iterator::next | id b
@binders query::without::WithoutIterLeft@QueryIterator::from_id | id b
@binders query::without::WithoutIterLeft@QueryIterator::next_with_id | id b
@binders query::without::WithoutIterRight@Iterator::next | id a
@binders query::without::WithoutIterRight@QueryIterator::from_id | id a
@binders query::without::WithoutIterRight@QueryIterator::next_with_id | id a
@binders resource::ResourceRead::new | lock
@binders resource::ResourceWrite::new | lock
@binders sparse_set::SparseSet::add | entity data entity_ index
@binders sparse_set::SparseSet::add_batch | entities data entity data
@binders sparse_set::SparseSet::exist | entity entity
@binders sparse_set::SparseSet::get | entity entity index index
@binders sparse_set::SparseSet::get_index | entity entity index
@binders sparse_set::SparseSet::get_mut | entity entity index index
@binders sparse_set::SparseSet::get_unchecked | entity entity index
@binders sparse_set::SparseSet::get_unchecked_mut | entity entity index
@binders sparse_set::SparseSet::remove | entity entity index index
@binders sparse_set::SparseSet::swap_by_entity | entity_a entity_b entity_a entity_b index_a index_b
@binders sparse_set::SparseSet::swap_by_index | index_a index_b entity_a entity_b
@binders world::World::attach_component | entity_id component
@binders world::World::components_read | type_id lock
@binders world::World::components_write | type_id lock
@binders world::World::create_entities | count ids entity_manager entity_manager
@binders world::World::create_entity | id entity_manager
@binders world::World::detach_component | entity_id
@binders world::World::entity | id lock
@binders world::World::entity_component_read | id lock
@binders world::World::entity_component_write | id lock
@binders world::World::exist | entity_id entity_manager
@binders world::World::group | group group world_group world_group
@binders world::World::groups | type_id groups group need_add group type_id_a type_id_b
@binders world::World::has_group | group group world_group world_group
@binders world::World::has_registered | type_id
@binders world::World::make_group | group group type_a type_b group group data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b
@binders world::World::raw_storage_read | id rwlock
@binders world::World::raw_storage_write | id rwlock
@binders world::World::register | type_id
@binders world::World::register_resource | resource type_id
@binders world::World::remove_entity | entity_id groups group need_remove group type_a type_b comp_a comp_b group data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b data type_a type_b comp_a comp_b storages storage need_remove storage storage entity_manager
@binders world::World::resource_read | type_id lock
@binders world::World::resource_write | type_id lock
