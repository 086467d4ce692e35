"""Which functions' obligations carry which property (regular expressions over the extractor's function names)."""
SS = r'^sparse_set::'
CS = r'^component::T@ComponentStorage|^component::.*ComponentStorage::|^component::SparseSet@'
EM = r'^entity::EntityManager::'
ENT = r'^entity::Entity::|^entity::Entities::'
def G(k): return [rf'^group::{k}::{{0}}', r'^group::Group::']
KINDS = {'full_owning': 'FullOwning', 'partial_owning': 'PartialOwning', 'non_owning': 'NonOwning'}
def group(k):
    return [rf'^group::{k}::(?!query::)', rf'^group::{k}::query::(?!.*::size_hint$)', r'^group::Group::', SS, r'^component::.*@ComponentStorage::',
            r'^entity::Entity::(attach|detach|manaully_drop|manually_drop)', r'^entity::Entities::attach', r'^world::World::(make_group|attach_component|detach_component|remove_entity|group|groups|all_groups|query)$']
CONES = {
 'C01': [EM, r'^world::World::(new|create_entity|create_entities|remove_entity|exist|entity|entities)$', r'^entity::Entity::(new|into_id)', r'^entity::Entities::(new|into_ids)'],
 'C02': [r'^entity::EntityManager::(new|allocate_n|has)', r'^world::World::create_entities$', r'^entity::Entities::(new|into_ids|ids)'],
 'C03': [r'^entity::EntityManager::(new|allocate|remove)$', r'^world::World::(create_entity|remove_entity)$', r'^entity::Entity::(new|into_id)'],
 'C04': [SS, r'^component::.*@ComponentStorage::', r'^entity::Entity::(attach|detach)', r'^world::World::(register|attach_component|detach_component|components_read|components_write|components_storage|raw_storage|has_registered|storage|component)'],
 'C05': [SS, r'^entity::Entities::', r'^group::\w+::\w+::(add|make)$', r'^group::Group::', r'^world::World::(create_entities|group|groups)$'],
 'C06': [r'^sparse_set::.*(remove|swap)', r'^component::.*@ComponentStorage::', r'^entity::EntityManager::remove', r'^entity::Entity::(manaully_drop|manually_drop)', r'^group::\w+::\w+::remove$', r'^group::Group::', r'^world::World::(remove_entity|all_groups|groups)'],
 'C07': [r'^query::(IterRef|IterMut)@(?!.*::size_hint$)', r'^query::IdIter', r'^query::A@', r'^query::&', SS, r'^world::World::query$'],
 'C08': [r'^query::with::', r'^query::Box@', r'^query::IdIter', r'^query::A@', r'^world::World::query$'],
 'C09': [r'^query::without::', r'^query::Box@', r'^query::IdIter', r'^query::A@', r'^world::World::query$'],
 'C10': group('full_owning'), 'C11': group('partial_owning'), 'C12': group('non_owning'),
 'C13': [r'^world::World::(make_group|has_group|group|has_registered)', r'^group::Group::', r'^group::\w+::\w+::(new|types|owned|owning|eq|make|make_group_in_world|vx_into)$'],
 'C14': [r'::size_hint$', r'^group::\w+::\w+::(len|is_empty)$', r'^group::Group::len$', r'^sparse_set::SparseSet::len$'],
 'C15': [r'^world::World::(register_resource|resource_read|resource_write|new)$', r'^resource::'],
 'C16': [r'^world::World::', r'^entity::Entity::', r'^entity::Entities::', r'^query::&', r'^group::\w+::query::\w+<'],
 'C17': [r'.*'],
 'C18': [r'^component::(StorageRead|StorageWrite|ComponentRead|ComponentWrite)', r'^world::World::(components_read|components_write|entity_component_read|entity_component_write|components_)', r'^sparse_set::.*(get|get_mut|data|data_mut|entities|has|add)$'],
 'C19': [r'@QueryIterator::from_id$', r'@Iterator::next$', r'@QueryIterator::next_with_id$'],
}
# the property as lemmas (or client functions) over the contracts: contracts/90_clients.vc
_H = ['lemma_history', 'lemma_call', 'lemma_run_prefix']
_G = _H + ['lemma_members', 'lemma_both', 'c08_visit']
LEMMAS = {
 'C01': _H + ['c01_fresh'], 'C02': _H + ['c02_batch'], 'C03': _H + ['c03_last_removed_first', 'c06_recycle'], 'C04': _H + ['c04_roundtrip', 'lemma_still_live'],
 'C05': _H + ['c05_batch_as_one_by_one', 'lemma_ones', 'lemma_members'], 'C06': _H + ['c06_gone_has_nothing', 'c06_recycle', 'lemma_members'], 'C07': _H + ['c07_single', 'c08_visit'],
 'C08': ['c08_tuple', 'c08_visit'], 'C09': ['c09_excluded', 'c08_visit'], 'C10': _G + ['c10_group'], 'C11': _G + ['c11_group'], 'C12': _G + ['c12_group'], 'C13': ['c13_rejected'],
 'C14': ['c14_hint'], 'C15': _H + ['c15_slot'], 'C18': ['c18_read'], 'C19': ['c08_visit'],
}
