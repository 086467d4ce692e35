#!/usr/bin/env python3
"""Writes 60_query.vc: the contracts of every query iterator (the sixteen shapes are instances of a few templates)."""
import os
out = []
w = out.append
SPECFN = ['inv', 'rem', 'dom', 'val', 'ival', 'fval', 'exact']

# ---------- the trait contracts
w('''@impl query::QueryIterator
    /* every remaining id satisfies the query and none comes twice */
    proof fn lemma_good(&self)
        requires self.inv()
        ensures self.rem().no_duplicates(), forall|i: Id| self.rem().contains(i) ==> self.dom().contains(i);
@fn query::QueryIterator::from_id
@requires
old(self).inv(),
@ensures
final(self).inv(), final(self).dom() == old(self).dom(), final(self).rem() == old(self).rem(), final(self).exact() == old(self).exact(),
r is Some <==> old(self).dom().contains(id),
r is None ==> forall|i: Id| old(self).dom().contains(i) ==> #[trigger] final(self).val(i) == old(self).val(i),
r is Some ==> Self::ival(r->Some_0) == old(self).val(id) && Self::fval(r->Some_0) == final(self).val(id)
    && forall|i: Id| old(self).dom().contains(i) && i != id ==> #[trigger] final(self).val(i) == old(self).val(i),
@fn query::QueryIterator::next_with_id
@requires
old(self).inv(),
@ensures
final(self).inv(), final(self).dom() == old(self).dom(), final(self).exact() == old(self).exact(),
r is Some <==> old(self).rem().len() > 0,
r is None ==> final(self).rem() == old(self).rem() && forall|i: Id| old(self).dom().contains(i) ==> #[trigger] final(self).val(i) == old(self).val(i),
r is Some ==> r->Some_0.0 == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first()
    && Self::ival(r->Some_0.1) == old(self).val(old(self).rem()[0]) && Self::fval(r->Some_0.1) == final(self).val(old(self).rem()[0])
    && forall|i: Id| old(self).dom().contains(i) && i != old(self).rem()[0] ==> #[trigger] final(self).val(i) == old(self).val(i),
@items query
impl<T: QueryIterator + ?Sized> Iterator for Box<T> {
    type Item = T::Item;
    open spec fn inv(&self) -> bool { (**self).inv() }
    open spec fn rem(&self) -> Seq<Id> { (**self).rem() }
    open spec fn dom(&self) -> ISet<Id> { (**self).dom() }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { (**self).val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { T::ival(i) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { T::fval(i) }
    open spec fn exact(&self) -> bool { (**self).exact() }
    fn next(&mut self) -> Option<Self::Item> { (**self).next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (**self).size_hint() }
}
@impl query::Box@QueryIterator
    proof fn lemma_good(&self) { (**self).lemma_good(); }
@fn query::Box@QueryIterator::from_id
@fn query::Box@QueryIterator::next_with_id
@impl query::IdIter@Iterator
    open spec fn inv(&self) -> bool { self.iter.inv() }
    open spec fn rem(&self) -> Seq<Id> { self.iter.rem() }
    open spec fn dom(&self) -> ISet<Id> { self.iter.dom() }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { A::ival(i.1) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { A::fval(i.1) }
    open spec fn exact(&self) -> bool { self.iter.exact() }
@fn query::IdIter@Iterator::next
@ensures
r is Some ==> r->Some_0.0 == old(self).rem()[0],
@fn query::IdIter@Iterator::size_hint
@fn query::WithId::with_id
@fn query::A@WithId::with_id
@ensures
r.iter == self,
''')

def methods(key, extra={}, it='Iterator', loops=None, size=True, ls='', base=''):
    for tr, m in (('Iterator', 'next'), ('Iterator', 'size_hint'), ('QueryIterator', 'from_id'), ('QueryIterator', 'next_with_id')):
        w(f'@fn {key}@{tr}::{m}\n@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]')
        st = extra.get(m, extra.get('*', ''))
        if st: w('@start\n' + st)
        if loops and m in loops:
            w('@loop 1\n' + loops[m])
            w('@loop-start 1\n' + ls)
            w('@loop-before 1\nlet ghost mut g_rem = self.' + base + '.rem();')

# ---------- single component
def plain(mut):
    ty = 'IterMut' if mut else 'IterRef'
    cur = 'self.sparse_set.cur()' if mut else 'self.sparse_set'
    inv = f'{cur}.wf() && self.borrow.wf() && self.borrow.ids() == {cur}.ids() && self.index <= {cur}.ids().len()'
    if mut: inv += ' && self.sparse_set.fin().ids() == self.sparse_set.cur().ids()'
    w(f'''@impl query::{ty}@Iterator
    open spec fn inv(&self) -> bool {{ {inv} }}
    open spec fn rem(&self) -> Seq<Id> {{ {cur}.ids().skip(self.index as int) }}
    open spec fn dom(&self) -> ISet<Id> {{ ISet::new(|i: Id| {cur}.ids().contains(i)) }}
    open spec fn val(&self, id: Id) -> Seq<AnyVal> {{ seq![embed({cur}.vals()[{cur}.pos(id)])] }}
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> {{ seq![embed(*i)] }}
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> {{ seq![embed(*{'final(i)' if mut else 'i'})] }}
    open spec fn exact(&self) -> bool {{ true }}
@impl query::{ty}@QueryIterator
    proof fn lemma_good(&self) {{ broadcast use lemma_ss_all; lemma_skip_nodup({cur}.ids(), self.index as int); }}''')
    methods(f'query::{ty}', {'*': 'proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }'})
plain(False); plain(True)

# ---------- two-part group iterators
def cur(mut, x): return f'self.sparse_set_{x}.cur()' if mut else f'self.sparse_set_{x}'
def group(kind, ma, mb):
    ty = f"Iter{'Mut' if ma else 'Ref'}{'Mut' if mb else 'Ref'}"
    mod = f'group::{kind}::query'
    a, b = cur(ma, 'a'), cur(mb, 'b')
    inv = [f'{a}.wf()', f'{b}.wf()']
    for m, x, c in ((ma, 'a', a), (mb, 'b', b)):
        if m: inv += [f'self.sparse_set_{x}.fin().ids() == {c}.ids()']
    if kind == 'non_owning':
        inv += ['self.sparse_set_group.wf()', 'self.index <= self.sparse_set_group.ids().len()', f'non_ok(self.sparse_set_group.ids(), {a}.ids(), {b}.ids(), ISet::empty())',
                'self.borrow_group is NonOwning', 'self.borrow_group->NonOwning_0.sparse_set.ids() == self.sparse_set_group.ids()', 'self.borrow_group->NonOwning_0.sparse_set.wf()']
        rem = 'self.sparse_set_group.ids().skip(self.index as int)'
        good = 'self.sparse_set_group.lemma_all(); lemma_skip_nodup(self.sparse_set_group.ids(), self.index as int);'
    else:
        inv += ['self.index <= self.length', f'{"full" if kind == "full_owning" else "partial"}_ok(self.length as int, {a}.ids(), {b}.ids(), ISet::empty())']
        rem = f'{a}.ids().subrange(self.index as int, self.length as int)'
        good = f'lemma_sub_nodup({a}.ids(), self.index as int, self.length as int);'
    w(f'''@impl {mod}::{ty}@Iterator
    open spec fn inv(&self) -> bool {{ {' && '.join(inv)} }}
    open spec fn rem(&self) -> Seq<Id> {{ {rem} }}
    open spec fn dom(&self) -> ISet<Id> {{ ISet::new(|i: Id| {a}.ids().contains(i) && {b}.ids().contains(i)) }}
    open spec fn val(&self, id: Id) -> Seq<AnyVal> {{ seq![embed({a}.vals()[{a}.pos(id)]), embed({b}.vals()[{b}.pos(id)])] }}
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> {{ seq![embed(*i.0), embed(*i.1)] }}
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> {{ seq![embed(*{'final(i.0)' if ma else 'i.0'}), embed(*{'final(i.1)' if mb else 'i.1'})] }}
    open spec fn exact(&self) -> bool {{ true }}
@impl {mod}::{ty}@QueryIterator
    proof fn lemma_good(&self) {{ broadcast use lemma_ss_all; {good} }}''')
    methods(f'{mod}::{ty}', {'*': 'proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }'})
for k in ('full_owning', 'partial_owning', 'non_owning'):
    for ma in (False, True):
        for mb in (False, True):
            group(k, ma, mb)

# ---------- joins
def meet(fields):
    r = f'self.{fields[-1]}.dom()'
    for f in reversed(fields[:-1]): r = f'self.{f}.dom().intersect({r})'
    return r
def flt(base, fields, neg=False):
    return f'{"drop_in" if neg else "keep"}(self.{base}.rem(), {meet(fields)})'
LOOP = '''invariant
    g_rem == self.{base}.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.{base}.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), {doms}
    {vals}
ensures self.rem().len() == 0
decreases self.{base}.rem().len()'''
LS = 'proof {{ lemma_{k}_first(g_rem, {d}); assert(g_rem.contains(g_rem[0])); assert(self.{base}.dom().contains(g_rem[0])); g_rem = self.{base}.rem(); self.{base}.lemma_good(); }}'
def join(n):
    ty = 'WithIter' + ('' if n == 2 else str(n))
    L = 'abcde'[:n]; U = 'ABCDE'[:n]
    f = ['iter_' + c for c in L]
    inv = ' && '.join(f'self.{x}.inv()' for x in f)
    dom = ' && '.join(f'self.{x}.dom().contains(i)' for x in f)
    w(f'''@impl query::with::{ty}@Iterator
    open spec fn inv(&self) -> bool {{ {inv} }}
    open spec fn rem(&self) -> Seq<Id> {{ {flt(f[0], f[1:])} }}
    open spec fn dom(&self) -> ISet<Id> {{ ISet::new(|i: Id| {dom}) }}
    open spec fn val(&self, id: Id) -> Seq<AnyVal> {{ {' + '.join(f'self.{x}.val(id)' for x in f)} }}
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> {{ {' + '.join(f'{u}::ival(i.{k})' for k, u in enumerate(U))} }}
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> {{ {' + '.join(f'{u}::fval(i.{k})' for k, u in enumerate(U))} }}
    open spec fn exact(&self) -> bool {{ false }}
@impl query::with::{ty}@QueryIterator
    proof fn lemma_good(&self) {{ self.iter_a.lemma_good(); lemma_keep_good(self.iter_a.rem(), {meet(f[1:])}); }}''')
    lp = LOOP.format(doms=' '.join(f'self.{x}.dom() == old(self).{x}.dom(),' for x in f), vals=' '.join(f'forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.{x}.val(i) == old(self).{x}.val(i),' for x in f), base='iter_a')
    methods(f'query::with::{ty}', {'*': 'proof { self.iter_a.lemma_good(); }'}, loops={'next': lp, 'next_with_id': lp}, size=False, base=f[0], ls=LS.format(k='keep', base=f[0], d=meet(f[1:])))
    for m in ('next', 'next_with_id'):
        w(f'@fn query::with::{ty}@{"Iterator" if m == "next" else "QueryIterator"}::{m}')
for n in (2, 3, 4, 5): join(n)
def without(ty, keep, exc, K):
    w(f'''@impl query::without::{ty}@Iterator
    open spec fn inv(&self) -> bool {{ self.iter_a.inv() && self.iter_b.inv() }}
    open spec fn rem(&self) -> Seq<Id> {{ {flt(keep, [exc], True)} }}
    open spec fn dom(&self) -> ISet<Id> {{ ISet::new(|i: Id| self.{keep}.dom().contains(i) && !self.{exc}.dom().contains(i)) }}
    open spec fn val(&self, id: Id) -> Seq<AnyVal> {{ self.{keep}.val(id) }}
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> {{ {K}::ival(i) }}
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> {{ {K}::fval(i) }}
    open spec fn exact(&self) -> bool {{ false }}
@impl query::without::{ty}@QueryIterator
    proof fn lemma_good(&self) {{ self.{keep}.lemma_good(); lemma_drop_good(self.{keep}.rem(), self.{exc}.dom()); }}''')
    lp = LOOP.format(doms=f'self.{keep}.dom() == old(self).{keep}.dom(), self.{exc}.dom() == old(self).{exc}.dom(),', vals=f'forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.{keep}.val(i) == old(self).{keep}.val(i),', base=keep)
    methods(f'query::without::{ty}', {'*': f'proof {{ self.{keep}.lemma_good(); }}'}, loops={'next': lp, 'next_with_id': lp}, size=False, base=keep, ls=LS.format(k='drop', base=keep, d=f'self.{exc}.dom()'))
without('WithoutIterLeft', 'iter_b', 'iter_a', 'B')
without('WithoutIterRight', 'iter_a', 'iter_b', 'A')

# ---------- Queryable
w('''@impl query::Queryable
    type It: QueryIterator<Item = Self::Item>;
@fn query::Queryable::query
@ret_type Box<Self::It>''')
def queryable(key, it, body=''):
    w(f'@impl {key}@Queryable\n    type It = {it};\n{body}@fn {key}@Queryable::query\n@ret_type Box<Self::It>\n@external_body')
queryable('query::&T', "IterRef<'a, T>")
queryable('query::&mut T', "IterMut<'a, T>")
for kind, K in (('full_owning', 'FullOwning'), ('partial_owning', 'PartialOwning'), ('non_owning', 'NonOwning')):
    for ma in (0, 1):
        for mb in (0, 1):
            r = lambda m: '&mut ' if m else '&'
            queryable(f'group::{kind}::query::{K}<{r(ma)}A,{r(mb)}B>', f"Iter{'Mut' if ma else 'Ref'}{'Mut' if mb else 'Ref'}<'a, A, B>")
for n in (2, 3, 4, 5):
    U = 'ABCDE'[:n]
    queryable(f"query::with::({','.join(U)})", f"WithIter{'' if n == 2 else n}<{', '.join(f'Box<{u}::It>' for u in U)}>")
queryable('query::without::(Without<A>,B)', 'WithoutIterLeft<Box<A::It>, Box<B::It>>')
queryable('query::without::(A,Without<B>)', 'WithoutIterRight<Box<A::It>, Box<B::It>>')
w('@fn world::World::query\n@ret_type Box<T::It>\n@external_body')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '60_query.vc'), 'w').write('\n'.join(out) + '\n')
