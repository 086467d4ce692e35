#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the statements stay in one place)."""
import json,os
H=["histories","inputs"]
def P(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    return dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(zip(("name","meaning","where"),s)) for s in state],
                     mechanism=[dict(name=m[0],where=m[1]) for m in mech],observe_at=list(obs)))
EM=("EntityManager","free list and dense list of ids","src/entity.rs EntityManager")
SS=("SparseSet","sparse/dense index pair of one component type","src/sparse_set.rs SparseSet")
GD=("group data","prefix length / id set of a group","src/group/*/mod.rs")
props=[
P("C01","An entity exists exactly while it is created and not removed",
 "After any sequence of creations (single, batch) and removals, an entity id is reported as existing exactly when some creation returned it and it has not been removed since. The question can be asked of any id, also one never handed out, and never panics. A creation never returns the id of an entity that exists.",
 H,"every history of create_entity, create_entities, remove_entity and manual drop, and every id asked about",
 "entity tests create and remove a handful of ids in two fixed orders; the claim is about every history",
 ["src/entity.rs","src/world.rs"],[("allocate / allocate_n / remove / has","src/entity.rs impl EntityManager"),("create_entity, create_entities, remove_entity, exist, entity","src/world.rs")],[EM],["World::exist","World::entity"]),
P("C02","Batch creation returns consecutive fresh ids",
 "Creating n entities at once returns a range of exactly n consecutive ids that were never handed out before, all of which exist afterwards; it removes nothing and does not change which removed ids are due for reuse. This holds for n = 0 and whatever was created or removed before.",
 H,"every n (up to memory) after every history","one test creates one batch in a fresh world",
 ["src/entity.rs","src/world.rs"],[("allocate_n","src/entity.rs"),("create_entities","src/world.rs")],[EM],["Entities::into_ids","World::exist"]),
P("C03","Removed ids are recycled, last removed first",
 "Creating a single entity returns the most recently removed id that has not been reused yet; only when no removed id is left does it return a new id, the smallest one never handed out (ids start from 1).",
 H,"every history of creations (single and batch) and removals","the test reuses one or two ids; the chain of free ids is only exercised by longer interleavings",
 ["src/entity.rs"],[("free list through entity_flags","src/entity.rs EntityManager::allocate/remove")],[EM],["Entity::into_id"]),
P("C04","Component storage behaves as one map per type",
 "For every registered type the world behaves as a map from entities to one component: attaching inserts or overwrites, detaching removes and returns the component (nothing if absent), reading gives the last value written. No operation on one entity or type changes any other entity's or type's component, in whatever order components are stored and whatever groups exist.",
 H,"every history of attach, detach, overwrite, removal and group declaration over any entities and types","tests attach and detach a few components on at most seven entities and look at one order",
 ["src/world.rs","src/entity.rs","src/sparse_set.rs","src/component.rs"],[("add/remove/get/swap keep index pair consistent","src/sparse_set.rs"),("attach/detach","src/entity.rs impl Entity")],[SS],["World::entity_component_read","World::components_read","World::detach_component"]),
P("C05","Batch attach equals attaching one by one",
 "Attaching n components to a batch of n entities leaves the world as attaching the i-th component to the i-th entity one after the other would: same components on every entity, also when they had one already, and the same entities in every group.",
 H,"every batch size, every earlier state incl. batches that already carry the type, every set of groups","the batch tests attach fresh components in a world without groups",
 ["src/entity.rs","src/sparse_set.rs"],[("Entities::attach","src/entity.rs"),("add_batch","src/sparse_set.rs")],[SS,GD],["queries","group queries","components_read"]),
P("C06","Removing an entity removes everything it had",
 "After an entity is removed (by id or by dropping its handle) it no longer exists, none of its components of any type can be read or is yielded by any query, and it is in no group, while every other entity keeps all its components and memberships. An entity created with the recycled id starts with no component and in no group.",
 H,"every history, every combination of component types and groups the removed entity was in","tests remove one or two entities and check one type",
 ["src/world.rs","src/entity.rs","src/group/full_owning/mod.rs","src/group/partial_owning/mod.rs","src/group/non_owning/mod.rs"],[("remove_entity","src/world.rs"),("manaully_drop","src/entity.rs"),("group remove","src/group/*/mod.rs")],[EM,SS,GD],["World::exist","queries"]),
P("C07","A query for one component yields each holder exactly once",
 "Querying a single component, shared or mutable, yields every entity that has it exactly once, paired (when asked with ids) with its own component's current value, and no other entity. Values written through a mutable query are the ones read afterwards, and no other component changes.",
 H,"every world state reachable, every component type","tests query small worlds once in creation order",
 ["src/query/mod.rs","src/sparse_set.rs"],[("IterRef / IterMut","src/query/mod.rs")],[SS],["World::query","WithId::with_id"]),
P("C08","A join yields exactly the entities with all parts",
 "Querying a tuple of two to five parts, nested tuples and mixtures of shared and mutable parts included, yields exactly the entities that satisfy every part, each once, with each part's item belonging to that very entity and in the written order.",
 ["histories","inputs","programs"],"every reachable world, every tuple shape","two tuple shapes in one fixed world are tested; 3-, 4- and 5-tuples not at all",
 ["src/query/with.rs","src/query/mod.rs"],[("WithIter..WithIter5","src/query/with.rs")],[],["World::query"]),
P("C09","An excluded part removes exactly the entities that satisfy it",
 "Combining a query with an excluded query (on the left or the right, itself possibly a tuple or nested) yields exactly the entities that satisfy the first and do not satisfy the excluded one, each once with its own items.",
 ["histories","inputs","programs"],"every reachable world, every excluded query shape","three shapes in one fixed world are tested",
 ["src/query/without.rs"],[("WithoutIterLeft / WithoutIterRight","src/query/without.rs")],[],["World::query"]),
P("C10","A full-owning group query yields exactly the entities with both",
 "After any history following (and preceding) its declaration, iterating a full-owning group yields exactly the entities that have both component types, each once, and both items belong to that entity.",
 H,"every history of creation, attach, detach, overwrite, batch attach and removal, before and after the group is declared, with other groups present","group_test declares groups in one world and prints; it asserts almost nothing",
 ["src/group/full_owning/mod.rs","src/group/full_owning/query.rs","src/entity.rs","src/world.rs"],[("add/remove/make keep members in a common prefix","src/group/full_owning/mod.rs")],[GD,SS],["World::query::<FullOwning<..>>"]),
P("C11","A partial-owning group query yields exactly the entities with both",
 "After any history following (and preceding) its declaration, iterating a partial-owning group yields exactly the entities that have both component types, each once, and both items belong to that entity; several groups that share the non-owned type do not disturb each other.",
 H,"as C10","as C10",
 ["src/group/partial_owning/mod.rs","src/group/partial_owning/query.rs","src/entity.rs","src/world.rs"],[("add/remove/make keep members in the prefix of the owned storage","src/group/partial_owning/mod.rs")],[GD,SS],["World::query::<PartialOwning<..>>"]),
P("C12","A non-owning group query yields exactly the entities with both",
 "After any history following (and preceding) its declaration, iterating a non-owning group yields exactly the entities that have both component types, each once, and both items belong to that entity, even when other groups reorder the components or other entities are removed.",
 H,"as C10","as C10",
 ["src/group/non_owning/mod.rs","src/group/non_owning/query.rs","src/entity.rs","src/world.rs"],[("id set kept by add/remove/make","src/group/non_owning/mod.rs")],[GD,SS],["World::query::<NonOwning<..>>"]),
P("C13","Group declaration accepts exactly the allowed groups",
 "Declaring a group over two different component types is rejected exactly when the same group exists, a component type is not registered, or it would own a type that another group owns. An accepted declaration changes no component of any entity and the group is right at once for the entities already there.",
 ["histories","inputs","configurations"],"every set of earlier groups and registrations, every group kind and pair of types, every world state at declaration","one accepted sequence is run; rejections are not tested",
 ["src/world.rs","src/group/mod.rs","src/group/full_owning/mod.rs","src/group/partial_owning/mod.rs","src/group/non_owning/mod.rs"],[("make_group / has_group","src/world.rs"),("types/owned/owning/make","src/group/*/mod.rs")],[GD],["World::make_group"]),
P("C14","Size hints are exact for plain and group queries",
 "At every point of an iteration the size hint of a single-component or group query (also with ids) is exactly the number of items still to come, and the size hint of any other query brackets that number.",
 H,"every reachable world, every position of the iteration","no test looks at a size hint",
 ["src/query/mod.rs","src/group/full_owning/query.rs","src/group/partial_owning/query.rs","src/group/non_owning/query.rs"],[("size_hint","src/query/mod.rs, src/group/*/query.rs")],[],["Iterator::size_hint","ExactSizeIterator::len"]),
P("C15","Resources behave as one slot per type",
 "For each type, reading a resource gives the value registered last (registering again replaces it) as changed by writes since then, and nothing if none was registered; resources of other types, entities and components are unaffected.",
 H,"every history of registration, reads and writes over several types","one resource is registered and read once",
 ["src/world.rs","src/resource.rs"],[("register_resource/resource_read/resource_write","src/world.rs")],[],["World::resource_read","World::resource_write"]),
P("C16","A call that misuses the world is rejected and changes nothing",
 "Registering a component twice, attaching, detaching or querying an unregistered type, attaching to, detaching from or removing an entity that does not exist, a batch of the wrong length, a forbidden group declaration and a query of an undeclared group all panic, and afterwards the world's entities, components, groups and resources are what they were before the call.",
 H,"every reachable world and every misuse in it","tests never trigger a documented panic",
 ["src/world.rs","src/entity.rs","src/query/mod.rs","src/group/full_owning/query.rs","src/group/partial_owning/query.rs","src/group/non_owning/query.rs"],[("assertions before any change","src/world.rs, src/entity.rs")],[],["catch_unwind around the public API"]),
P("C17","Correct use never panics and touches only valid memory",
 "No history of calls that respects the documented conditions panics, reads or writes outside a storage, or reads a component as another type; every component is dropped exactly once (when overwritten, removed with its entity, or with the world), unless it was handed back to the caller.",
 H,"every history of documented-correct calls","unsafe unchecked indexing and downcasts are only reached with the few sampled states",
 ["src/sparse_set.rs","src/component.rs","src/query/mod.rs","src/group/full_owning/query.rs","src/group/partial_owning/query.rs","src/group/non_owning/query.rs","src/world.rs","src/entity.rs"],[("get_unchecked guarded by index invariants","src/query/mod.rs, src/group/*/query.rs, src/sparse_set.rs")],[SS,GD],["whole API"]),
P("C18","Guards show and change the live components",
 "A guard on a component storage reports its count, emptiness, membership and components as they are, its slice holds every component of the type exactly once, and values written through a storage or component guard are the ones every later read sees; a guard for an absent component or unregistered type is refused with nothing.",
 H,"every reachable world, every id asked, every write","tests read one slice and one component",
 ["src/component.rs","src/world.rs","src/sparse_set.rs"],[("StorageRead/StorageWrite/ComponentRead/ComponentWrite","src/component.rs")],[SS],["StorageRead","StorageWrite","ComponentRead","ComponentWrite"]),
P("C19","Looking an entity up in a query agrees with iterating it",
 "For every query of any shape (single, tuple, excluded part, group), looking up an id gives that entity's item exactly when a fresh iteration of the query yields that entity, and gives the same item; ids that do not exist or do not match give nothing, and a lookup does not change what the iteration yields.",
 ["histories","inputs","programs"],"every reachable world, query shape and id","from_id is only reached inside joins",
 ["src/query/mod.rs","src/query/with.rs","src/query/without.rs","src/group/full_owning/query.rs","src/group/partial_owning/query.rs","src/group/non_owning/query.rs"],[("from_id","src/query/*.rs, src/group/*/query.rs")],[],["QueryIterator::from_id"]),
P("C20","Two live exclusive items never refer to the same component",
 "At no time do safe calls give out two simultaneously usable exclusive references to the same component, or an exclusive and a shared one.",
 ["programs"],"every safe program using the API","a test can only show one program; the claim is over all programs accepted by the compiler",
 ["src/query/mod.rs","src/group/full_owning/query.rs"],[("lifetime of query items","src/query/mod.rs")],[],["World::query"]),
P("C21","Concurrent use of a shared world is linearisable and does not deadlock",
 "Threads sharing one world through its shared-reference API behave as if their calls ran one after another, and no combination of calls blocks forever unless a caller keeps a guard.",
 ["schedules"],"every interleaving of API calls from several threads","tests are single-threaded",
 ["src/world.rs","src/entity.rs"],[("RwLock per storage/group/resource","src/world.rs")],[],["World"]),
]
for p in props: assert len(p["title"])<=80,p["id"]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in props: f.write(json.dumps(p)+"\n")
