#!/usr/bin/env python3
"""Writes 51_group.vc: contracts of the three group kinds (instances of one template) and of Group."""
import os
out=[]; w=out.append
KINDS={'FullOwning':('full_owning','aligned(old(self).length as int, old(comp_a).ids(), old(comp_b).ids())','full_ok({s}.length as int, {a}.ids(), {b}.ids(), {x})',1,1),
 'PartialOwning':('partial_owning','within(old(self).length as int, old(comp_a).ids(), comp_b.ids())','partial_ok({s}.length as int, {a}.ids(), {b}.ids(), {x})',1,0),
 'NonOwning':('non_owning','old(self).sparse_set.wf()','non_ok({s}.sparse_set.ids(), {a}.ids(), {b}.ids(), {x})',0,0)}
OPS={
 ('FullOwning','add'): ('''let ghost (n, a, b, p, q) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id), find(comp_b.ids(), id));
proof { if a.contains(id) && b.contains(id) && p >= n && q < n { lemma_find_at(a, q); } if a.contains(id) && b.contains(id) && q >= n && p < n { lemma_find_at(b, p); } }''',
   '''proof { lemma_swapped(a, old(comp_a).vals(), p, n); lemma_swapped(b, old(comp_b).vals(), q, n);
assert forall|x: ISet<Id>| #[trigger] full_ok(n, a, b, x) implies full_ok(n + 1, comp_a.ids(), comp_b.ids(), x.remove(id)) by { lemma_full_add(n, a, b, id, x); } }'''),
 ('FullOwning','remove'): ('let ghost (n, a, b, p, q) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id), find(comp_b.ids(), id));',
   '''proof { lemma_swapped(a, old(comp_a).vals(), p, n - 1); lemma_swapped(b, old(comp_b).vals(), q, n - 1);
assert forall|x: ISet<Id>| #[trigger] full_ok(n, a, b, x) implies full_ok(n - 1, comp_a.ids(), comp_b.ids(), x.insert(id)) by { lemma_full_remove(n, a, b, id, x); } }'''),
 ('PartialOwning','add'): ('let ghost (n, a, b, p) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id));',
   '''proof { lemma_swapped(a, old(comp_a).vals(), p, n);
assert forall|x: ISet<Id>| #[trigger] partial_ok(n, a, b, x) implies partial_ok(n + 1, comp_a.ids(), b, x.remove(id)) by { lemma_partial_add(n, a, b, id, x); } }'''),
 ('PartialOwning','remove'): ('let ghost (n, a, b, p) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id));',
   '''proof { lemma_swapped(a, old(comp_a).vals(), p, n - 1);
assert forall|x: ISet<Id>| #[trigger] partial_ok(n, a, b, x) implies partial_ok(n - 1, comp_a.ids(), b, x.insert(id)) by { lemma_partial_remove(n, a, b, id, x); } }'''),
}
for K,(mod,pre,ok,ma,mb) in KINDS.items():
    m=f'group::{mod}::{K}Data'
    no=K=='NonOwning'
    o=lambda x,mm: f'old({x})' if mm else x
    f=lambda x,mm: f'final({x})' if mm else x
    oa,ob,fa,fb=o('comp_a',ma),o('comp_b',mb),f('comp_a',ma),f('comp_b',mb)
    w(f'@fn {m}@PartialEq::eq\n@ensures\nr == (self.type_a == other.type_a && self.type_b == other.type_b)')
    w(f'@fn {m}::len')
    if no: w('@requires\nself.sparse_set.wf()')
    w('@ensures\nr == '+('self.sparse_set.ids().len()' if no else 'self.length'))
    w(f'@fn {m}::types\n@ensures\nr == (self.type_a, self.type_b)')
    own={'FullOwning':'type_id == self.type_a || type_id == self.type_b','PartialOwning':'type_id == self.type_a','NonOwning':'false'}[K]
    w(f'@fn {m}::owned\n@ensures\nr == ({own})')
    seq={'FullOwning':'seq2(self.type_a, self.type_b)','PartialOwning':'seq1(self.type_a)','NonOwning':'Seq::<TypeId>::empty()'}[K]
    w(f'@fn {m}::owning\n@ensures\nr@ == {seq}')
    w(f'@fn {m}::in_components\n@requires\ncomp_a.wf(), comp_b.wf()\n@ensures\nr == (comp_a.ids().contains(id) && comp_b.ids().contains(id))')
    mem={'FullOwning':'find(comp_a.ids(), id) < self.length && find(comp_b.ids(), id) < self.length','PartialOwning':'find(comp_a.ids(), id) < self.length','NonOwning':'self.sparse_set.ids().contains(id)'}[K]
    w(f'@fn {m}::in_group\n@requires\nswf(*comp_a), swf(*comp_b)'+(', self.sparse_set.wf()' if no else '')+f'\n@ensures\nr == (comp_a.ids().contains(id) && comp_b.ids().contains(id) && {mem})')
    w('@start\nproof { broadcast use lemma_find; '+('self.sparse_set.lemma_all(); ' if no else '')+'}')
    wf=', '.join((f'swf(*{o(x,mm)})') for x,mm in (('comp_a',ma),('comp_b',mb)))
    frame='final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b'
    for x,mm in (('comp_a',ma),('comp_b',mb)):
        if mm: frame+=f', reordered(*old({x}), *final({x}))'
    if no: frame+=', final(self).sparse_set.wf()'
    for op,xx in (('add','x.remove(id)'),('remove','x.insert(id)')):
        w(f'@fn {m}::{op}\n@requires\n{wf}, {pre}\n@ensures\n{frame},\nforall|x: ISet<Id>| #[trigger] {ok.format(s="old(self)",a=oa,b=ob,x="x")} ==> {ok.format(s="final(self)",a=fa,b=fb,x=xx)}')
        st,en=OPS.get((K,op),('',''))
        w('@start\nproof { broadcast use lemma_find, shim_axioms; '+('self.sparse_set.lemma_all(); ' if no else '')+'}\n'+st)
        if en: w('@end\n'+en)
        if no and op=='add': w('@end\nproof { self.sparse_set.lemma_all(); lemma_push(old(self).sparse_set.ids(), id); }')
        if no and op=='remove': w('@end\nproof { let s0 = old(self).sparse_set; s0.lemma_all(); lemma_swap_rem(s0.ids(), s0.pos(id)); }')
    w(f'@fn {m}::make\n@requires\n{wf}'+(', old(self).sparse_set.wf()' if no else '')+f'\n@ensures\n{frame},\n{ok.format(s="final(self)",a=fa,b=fb,x="ISet::empty()")}')
    if no:
        for k,(u,v) in ((1,('a','b')),(2,('b','a'))):
            w(f'''@loop {k}
invariant
    self.sparse_set.wf(), self.type_a == old(self).type_a, self.type_b == old(self).type_b, len_{u} == comp_{u}.ids().len(), swf(*comp_a), swf(*comp_b),
    forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_{v}.ids().contains(i) && exists|k: int| 0 <= k < index_{u} && comp_{u}.ids()[k] == i,
@loop-start {k}
let ghost s0 = self.sparse_set.ids();
proof {{ self.sparse_set.lemma_all(); lemma_push(s0, comp_{u}.ids()[index_{u} as int]); }}
@loop-end {k}
proof {{ self.sparse_set.lemma_all();
assert forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_{v}.ids().contains(i) && exists|k: int| 0 <= k < index_{u} + 1 && comp_{u}.ids()[k] == i by {{
    let c = comp_{u}.ids()[index_{u} as int];
    assert(s0.contains(i) <==> comp_{v}.ids().contains(i) && exists|k: int| 0 <= k < index_{u} && comp_{u}.ids()[k] == i);
    if exists|k: int| 0 <= k < index_{u} + 1 && comp_{u}.ids()[k] == i {{ let k = choose|k: int| 0 <= k < index_{u} + 1 && comp_{u}.ids()[k] == i; if k < index_{u} {{ assert(comp_{u}.ids()[k] == i); }} }}
}} }}
@loop-after {k}
proof {{ assert forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_a.ids().contains(i) && comp_b.ids().contains(i) by {{
    if comp_{u}.ids().contains(i) {{ lemma_find(comp_{u}.ids(), i); }}
}} }}''')
    elif K=='FullOwning':
        for k,(u,v) in ((1,('a','b')),(2,('b','a'))):
            w(f'''@loop {k}
invariant
    self.type_a == old(self).type_a, self.type_b == old(self).type_b, len_{u} == comp_{u}.ids().len(), reordered(*old(comp_a), *comp_a), reordered(*old(comp_b), *comp_b),
    aligned(self.length as int, comp_a.ids(), comp_b.ids()), self.length <= index_{u},
    forall|i: int| #![trigger comp_{u}.ids()[i]] self.length <= i < index_{u} ==> !comp_{v}.ids().contains(comp_{u}.ids()[i]),
@loop-start {k}
let ghost (n, a, b, va, vb) = (self.length as int, comp_a.ids(), comp_b.ids(), comp_a.vals(), comp_b.vals());
@loop-end {k}
proof {{ broadcast use lemma_find;
    let c = {u}[index_{u} as int];
    if {v}.contains(c) {{
        lemma_find_at({u}, index_{u} as int);
        let q = find({v}, c);
        lemma_find_at({v}, q);
        if q < n {{ lemma_find_at({u}, q); assert(false); }}
    }}
}}
@after swap_by_index {2*k}
proof {{ broadcast use lemma_find;
    let c = {u}[index_{u} as int]; let q = index_{v} as int; let p = index_{u} as int;
    if q < n {{ lemma_find_at({u}, q); lemma_find_at({u}, p); }}
    lemma_swapped(a, va, index_a as int, n); lemma_swapped(b, vb, index_b as int, n);
    lemma_content_trans(old(comp_a).ids(), old(comp_a).vals(), a, va, comp_a.ids(), comp_a.vals());
    lemma_content_trans(old(comp_b).ids(), old(comp_b).vals(), b, vb, comp_b.ids(), comp_b.vals());
    assert forall|i: int| #![trigger comp_{u}.ids()[i]] n + 1 <= i < index_{u} + 1 implies !comp_{v}.ids().contains(comp_{u}.ids()[i]) by {{
        if i == index_{u} {{ if p != n {{ assert(comp_{u}.ids()[i] == {u}[n]); }} }} else {{ assert(comp_{u}.ids()[i] == {u}[i]); }}
    }}
}}
@before swap_by_index {2*k-1}
proof {{ broadcast use lemma_find; let q = index_{v} as int; if q < n {{ lemma_find_at({u}, q); lemma_find_at({u}, index_{u} as int); }} }}
@loop-after {k}
proof {{ broadcast use lemma_find;
    let (n, a, b) = (self.length as int, comp_a.ids(), comp_b.ids());
    assert forall|i: int| #![trigger a[i]] n <= i < a.len() implies !b.contains(a[i]) by {{
        if b.contains(a[i]) {{ let j = find(b, a[i]); if j < n {{ assert(a[j] == b[j]); }} else {{ assert({u}[{'i' if u=='a' else 'j'}] == a[i]); assert(a.contains(a[i])); }} }}
    }} }}''')
        w('@start\nproof { lemma_content_refl(comp_a.ids(), comp_a.vals()); lemma_content_refl(comp_b.ids(), comp_b.vals()); }')
    else:
        w('''@start
proof { lemma_content_refl(comp_a.ids(), comp_a.vals()); }
@loop 1 it
invariant
    self.type_a == old(self).type_a, self.type_b == old(self).type_b, it.iter.end == comp_a.ids().len(), swf(*comp_b), reordered(*old(comp_a), *comp_a),
    self.length <= index, within(self.length as int, comp_a.ids(), comp_b.ids()),
    forall|i: int| #![trigger comp_a.ids()[i]] self.length <= i < index ==> !comp_b.ids().contains(comp_a.ids()[i]),
@loop-start 1
let ghost (n, a, va) = (self.length as int, comp_a.ids(), comp_a.vals());
@after swap_by_index 1
proof { lemma_swapped(a, va, index as int, n); lemma_content_trans(old(comp_a).ids(), old(comp_a).vals(), a, va, comp_a.ids(), comp_a.vals());
    assert forall|i: int| #![trigger comp_a.ids()[i]] n + 1 <= i < index + 1 implies !comp_b.ids().contains(comp_a.ids()[i]) by {
        if i == index { if index != n { assert(comp_a.ids()[i] == a[n]); } } else { assert(comp_a.ids()[i] == a[i]); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies comp_b.ids().contains(#[trigger] comp_a.ids()[i]) by { if i < n { assert(comp_a.ids()[i] == a[i]); } }
}
''')
    w(f'@fn group::{mod}::{K}::new\n@impl group::{mod}::{K}@Into\n    open spec fn spec_group() -> (int, TypeId, TypeId) {{ ({list(KINDS).index(K)}int, tid::<A>(), tid::<B>()) }}\n@fn group::{mod}::{K}@Into::into')
    if no: w('@start\nproof { }')
w('''@fn group::Group::len
@requires
self is NonOwning ==> self->NonOwning_0.sparse_set.wf()
@ensures
r == glen(*self)
@fn group::Group::types
@ensures
r == gtypes(*self)
@fn group::Group::owned
@ensures
r == gowns(*self, type_id)
@fn group::Group::owning
@ensures
forall|t: TypeId| #[trigger] r@.contains(t) <==> gowns(*self, t), r@.len() <= 2
@start
proof { broadcast use lemma_seq2, lemma_seq1; }
@fn group::Group::in_components
@requires
comp_a.wf(), comp_b.wf()
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id))
@fn group::Group::in_group
@requires
swf(*comp_a), swf(*comp_b), self is NonOwning ==> self->NonOwning_0.sparse_set.wf()
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id) && gmember(*self, comp_a.ids(), comp_b.ids(), id))
@fn group::Group::eq
@ensures
r == (gkind(*self) == gkind(*other) && gtypes(*self) == gtypes(*other))
@fn group::full_owning
@fn group::partial_owning
@fn group::non_owning''')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'51_group.vc'),'w').write('\n'.join(out)+'\n')
