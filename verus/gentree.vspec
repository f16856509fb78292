@# The module tree of the generators (C13): shared by both; GEN stands for the generator module.
@@ raw
// ---- the tree of modules ----------------------------------------------------------------------
pub type Children = BTreeMap<Identifier, Module>;
// The depth of a tree; trees are finite.
pub uninterp spec fn height(c: Children) -> nat;
#[verifier::external_body]
pub broadcast proof fn axiom_height(c: Children, k: Identifier)
    ensures c@.contains_key(k) ==> #[trigger] height(c@[k].children) < height(c)
{ }
pub open spec fn empty_schema(s: schema::Schema) -> bool { s.imports@ == Map::<Identifier, schema::Import>::empty() && s.declarations@.len() == 0 }
pub open spec fn lookup(m: Module, p: Seq<Identifier>) -> Option<schema::Schema>
    decreases p.len()
{
    if p.len() == 0 { Some(m.schema) }
    else if m.children@.contains_key(p[0]) { lookup(m.children@[p[0]], p.skip(1)) }
    else { None }
}
// `b` is `a` with `s` at `ns`, and otherwise only empty modules in addition
pub open spec fn placed(a: Module, b: Module, ns: Seq<Identifier>, s: schema::Schema) -> bool {
    &&& lookup(b, ns) == Some(s)
    &&& forall|p: Seq<Identifier>| p != ns && (#[trigger] lookup(a, p)).is_some() ==> lookup(b, p) == lookup(a, p)
    &&& forall|p: Seq<Identifier>| p != ns && lookup(a, p).is_none() && (#[trigger] lookup(b, p)).is_some() ==> empty_schema(lookup(b, p).unwrap())
}
pub open spec fn empty_module(m: Module) -> bool { empty_schema(m.schema) && m.children@ == Map::<Identifier, Module>::empty() }
pub proof fn lemma_leaf(a: Module, b: Module, ns: Seq<Identifier>, s: schema::Schema)
    requires ns.len() == 0, b.schema == s, b.children == a.children
    ensures placed(a, b, ns, s)
{
    assert forall|p: Seq<Identifier>| p != ns implies lookup(a, p) == lookup(b, p) by { if p.len() == 0 { assert(p =~= ns); } }
}
// Going down one step.
pub proof fn lemma_place(a: Module, b: Module, ns: Seq<Identifier>, s: schema::Schema)
    requires
        ns.len() > 0, b.schema == a.schema, b.children@.contains_key(ns[0]),
        b.children@ == a.children@.insert(ns[0], b.children@[ns[0]]),
        a.children@.contains_key(ns[0]) ==> placed(a.children@[ns[0]], b.children@[ns[0]], ns.skip(1), s),
        !a.children@.contains_key(ns[0]) ==> exists|c: Module| empty_module(c) && #[trigger] placed(c, b.children@[ns[0]], ns.skip(1), s),
    ensures placed(a, b, ns, s)
{
    let new = b.children@[ns[0]];
    let old = if a.children@.contains_key(ns[0]) { a.children@[ns[0]] } else { choose|c: Module| empty_module(c) && #[trigger] placed(c, new, ns.skip(1), s) };
    assert forall|p: Seq<Identifier>| p != ns && p.len() > 0 && p[0] == ns[0] implies p.skip(1) != ns.skip(1) by {
        if p.skip(1) == ns.skip(1) {
            assert(p =~= seq![p[0]] + p.skip(1));
            assert(ns =~= seq![ns[0]] + ns.skip(1));
        }
    }
    assert forall|p: Seq<Identifier>| p != ns && lookup(a, p).is_none() && (#[trigger] lookup(b, p)).is_some() implies empty_schema(lookup(b, p).unwrap()) by {
        assert(p.len() > 0);
        if p[0] == ns[0] {
            if a.children@.contains_key(ns[0]) { } else {
                let q = p.skip(1);
                assert(lookup(new, q).is_some());
                if q.len() > 0 {
                    assert(!old.children@.contains_key(q[0]));
                    assert(lookup(old, q).is_none());
                    if q != ns.skip(1) { assert(empty_schema(lookup(new, q).unwrap())); }
                    else { assert(ns =~= seq![ns[0]] + ns.skip(1)); assert(p =~= seq![p[0]] + p.skip(1)); }
                } else { assert(lookup(old, q) == Some(old.schema)); }
            }
        }
    }
    assert forall|p: Seq<Identifier>| p != ns && (#[trigger] lookup(a, p)).is_some() implies lookup(b, p) == lookup(a, p) by {
        if p.len() > 0 && p[0] == ns[0] { assert(lookup(old, p.skip(1)).is_some()); }
    }
}
// What loading and validation let through is at every place of the tree.
pub proof fn lemma_known(m: Module)
    requires forall|p: Seq<Identifier>| (#[trigger] lookup(m, p)).is_some() ==> schema_known(lookup(m, p).unwrap())
    ensures tree_known(m.children, m.schema)
    decreases height(m.children)
{
    assert(lookup(m, Seq::empty()) == Some(m.schema));
    assert forall|k: Identifier| #[trigger] m.children@.contains_key(k) && height(m.children@[k].children) < height(m.children) implies tree_known(m.children@[k].children, m.children@[k].schema) by {
        let child = m.children@[k];
        assert forall|p: Seq<Identifier>| (#[trigger] lookup(child, p)).is_some() implies schema_known(lookup(child, p).unwrap()) by {
            let q = seq![k] + p;
            assert(q.skip(1) =~= p);
            assert(lookup(m, q) == lookup(child, p));
        }
        lemma_known(child);
    }
}
pub type Schemas = Map<schema::Namespace, (schema::Schema, PathBuf, String)>;
// The first `n` entries, and nothing else, are in the tree, each at its own place.
pub open spec fn holds(m: Module, e: Seq<(schema::Namespace, schema::Schema)>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n ==> lookup(m, (#[trigger] e[i]).0.components@) == Some(e[i].1)
    &&& forall|p: Seq<Identifier>| (#[trigger] lookup(m, p)).is_some() ==> empty_schema(lookup(m, p).unwrap()) || exists|i: int| 0 <= i < n && (#[trigger] e[i]).0.components@ == p
}
// A vector is its content.
#[verifier::external_body]
pub proof fn axiom_namespace(a: schema::Namespace, b: schema::Namespace) requires a.components@ == b.components@ ensures a == b { }
// The tree holds exactly the schemas given, each at the place its namespace says.
pub open spec fn tree_of(m: Module, schemas: Schemas) -> bool {
    &&& forall|k: schema::Namespace| #[trigger] schemas.contains_key(k) ==> lookup(m, k.components@) == Some(schemas[k].0)
    &&& forall|p: Seq<Identifier>| (#[trigger] lookup(m, p)).is_some() ==> empty_schema(lookup(m, p).unwrap()) || exists|k: schema::Namespace| #[trigger] schemas.contains_key(k) && k.components@ == p
}
pub open spec fn schemas_known(schemas: Schemas) -> bool {
    forall|k: schema::Namespace| #[trigger] schemas.contains_key(k) ==> schema_known(schemas[k].0)
}
// The output: a header, then the tree.
pub open spec fn output_of(o: Seq<Item>, m: Module) -> bool {
    ||| o.len() == 0 && m.children@.dom().len() == 0 && m.schema.declarations@.len() == 0
    ||| exists|header: Seq<char>| o == #[trigger] chars(header) + contents_items(Seq::empty(), m.children, m.schema)
}
pub open spec fn indent(n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { indent(n - 1) + INDENTATION@ } }
// The outline of the text: every module between its braces, every schema at its place.
pub open spec fn contents_items(ns: Seq<Identifier>, c: Children, s: schema::Schema) -> Seq<Item>
    decreases height(c), 2int, 0int
{
    kids_items(ns, c, s, entry_seq(c@).len() as int).push(Item::Schema(ns, s))
}
pub open spec fn kids_items(ns: Seq<Identifier>, c: Children, s: schema::Schema, n: int) -> Seq<Item>
    decreases height(c), 1int, n
{
    if n <= 0 || n > entry_seq(c@).len() { Seq::empty() } else {
        let e = entry_seq(c@)[n - 1];
        kids_items(ns, c, s, n - 1)
            + (if height(e.1.children) < height(c) { module_items(ns, e.0, e.1) } else { Seq::empty() })
            + (if n < entry_seq(c@).len() || s.declarations@.len() != 0 { chars("\n"@) } else { Seq::empty() })
    }
}
// Every schema of the tree is one that loading and validation let through.
pub open spec fn tree_known(c: Children, s: schema::Schema) -> bool
    decreases height(c)
{
    schema_known(s) && forall|k: Identifier| #[trigger] c@.contains_key(k) && height(c@[k].children) < height(c) ==> tree_known(c@[k].children, c@[k].schema)
}
pub open spec fn in_schema(b: BufState) -> bool { b.inside.is_some() }
@@ subst GEN
    \)\s*\?; ==> );
    <T: Write>\( ==> (
    &mut T\b ==> &mut Buf
    \bfmt::Error\b ==> FmtError
    indentation \+ (\d) ==> crate::shimt::add(indentation, \1)
    TRAITS_TO_DERIVE\.join\(", "\) ==> crate::shimt::joined(TRAITS_TO_DERIVE)
    crate::shim::(put|lit|show|cat)\( ==> crate::shimt::\1(
    imports\[(\w+)\] ==> imports.index(\1)
    ([\w.]+(?:\([\w&]*\))?\.components)\.clone\(\) ==> crate::shim::clone_vec(&\1)
@@ auto GEN requires buffer: &mut T
    in_schema(old(buffer)@),
@@ auto GEN requires imports: &BTreeMap
    imports@ == old(buffer)@.inside.unwrap().imports,
@@ auto GEN requires namespace: &schema::Namespace
    namespace.components@ == old(buffer)@.inside.unwrap().ns,
@@ auto GEN requires imports: [\s\S]*type_variant: &schema::TypeVariant
    known(imports@, *type_variant),
@@ auto GEN requires imports: [\s\S]*fields: &\[schema::Field\]
    fields_known(imports@, fields@),
@@ auto GEN entry imports: [\s\S]*fields: &\[schema::Field\]
    broadcast use lemma_field_known;
@@ auto GEN ensures buffer: &mut T
    r.is_ok(), final(buffer)@.inside == old(buffer)@.inside, final(buffer)@.outline == old(buffer)@.outline,
@@ auto GEN ensures integer_encoded
    true,
@@ defaultloop GEN
    invariant buffer@.inside == b0.inside, buffer@.outline == b0.outline,
@@ auto GEN entry buffer: &mut T
    let ghost b0 = buffer@;

@@ fn GEN::integer_encoded ret r
    ensures r == (type_.variant is Bool || type_.variant is S64 || type_.variant is U64),
@@ fn GEN::write_indentation ret r
    ensures r.is_ok(), kept(final(buffer)@, old(buffer)@), final(buffer)@ == after_put(old(buffer)@, indent(indentation as int)),
@@ fn GEN::write_module entry
    broadcast use text_lemmas;
@@ fn GEN::write_module_contents entry
    broadcast use text_lemmas;
@@ fn GEN::insert_schema entry
    let ghost m0 = *module;
@@ fn GEN::insert_schema after let mut \w+ = Module
    let ghost c0 = child;
    proof { assert(empty_module(c0)); }
@@ fn GEN::insert_schema after module\.children\.insert\(
    proof { assert(placed(c0, module.children@[namespace.components@[0]], namespace.components@.skip(1), *schema)); }
@@ fn GEN::insert_schema exit
    proof { if namespace.components@.len() == 0 { lemma_leaf(m0, *module, namespace.components@, *schema); } }
    proof { if namespace.components@.len() > 0 {
 lemma_place(m0, *module, namespace.components@, *schema); } }
@@ fn GEN::insert_schema
    ensures placed(*old(module), *final(module), namespace.components@, *schema),
    decreases namespace.components@.len()
@@ fn GEN::write_module ret r
    requires
        !in_schema(old(buffer)@), indentation == namespace.components@.len(), tree_known(module.children, module.schema),
    ensures
        r.is_ok(), final(buffer)@.inside.is_none(),
        final(buffer)@.outline == old(buffer)@.outline + module_items(namespace.components@, *name, *module),
    decreases height(module.children), 1int
@@ fn GEN::write_module_contents ret r
    requires
        !in_schema(old(buffer)@), indentation == namespace.components@.len(), tree_known(*children, *schema),
    ensures
        r.is_ok(), final(buffer)@.inside.is_none(),
        final(buffer)@.outline == old(buffer)@.outline + contents_items(namespace.components@, *children, *schema),
    decreases height(*children), 0int
@@ fn GEN::write_module_contents loop 0 kind map
@@ fn GEN::write_module_contents loop 0 inv
    invariant
        buffer@.inside.is_none(),
        buffer@.outline == old(buffer)@.outline + kids_items(namespace.components@, *children, *schema, __i0 as int),
@@ fn GEN::write_schema ret r
    requires
        !in_schema(old(buffer)@), indentation == namespace.components@.len(), schema_known(*schema),
    ensures
        r.is_ok(), final(buffer)@.inside.is_none(),
        final(buffer)@.outline == old(buffer)@.outline.push(Item::Schema(namespace.components@, *schema)),
@@ fn GEN::write_schema loop 0 kind map
@@ fn GEN::generate loop 0 kind map
@@ fn GEN::generate loop 0 inv
    invariant
        is_entries(__it0@, schemas@),
        e0 == Seq::new(__it0@.len(), |i: int| (*__it0@[i].0, __it0@[i].1.0)),
        holds(tree, e0, __i0 as int),
@@ fn GEN::generate loop 0 pre
    let ghost e0 = Seq::new(__it0@.len(), |i: int| (*__it0@[i].0, __it0@[i].1.0));
    proof { assert forall|p: Seq<Identifier>| (#[trigger] lookup(tree, p)).is_some() implies empty_schema(lookup(tree, p).unwrap()) by { if p.len() > 0 { } } }
@@ fn GEN::generate loop 0 start
    let ghost t0 = tree;
@@ fn GEN::generate loop 0 end
    proof {
        assert(e0[__i0 as int] == (*namespace, *schema));
        assert forall|j: int| 0 <= j < __i0 implies lookup(tree, (#[trigger] e0[j]).0.components@) == Some(e0[j].1) by {
            if e0[j].0.components@ == namespace.components@ { axiom_namespace(e0[j].0, *namespace); }
        }
        assert forall|p: Seq<Identifier>| (#[trigger] lookup(tree, p)).is_some() implies empty_schema(lookup(tree, p).unwrap()) || exists|i: int| 0 <= i < __i0 + 1 && (#[trigger] e0[i]).0.components@ == p by {
            if p == namespace.components@ { assert(e0[__i0 as int].0.components@ == p); }
            else if lookup(t0, p).is_some() { }
        }
    }
@@ fn GEN::generate loop 0 post
    proof {
        assert forall|k: schema::Namespace| #[trigger] schemas@.contains_key(k) implies lookup(tree, k.components@) == Some(schemas@[k].0) by {
            let i = choose|i: int| 0 <= i < __it0@.len() && *(#[trigger] __it0@[i]).0 == k;
            assert(e0[i].0 == k);
        }
        assert forall|p: Seq<Identifier>| (#[trigger] lookup(tree, p)).is_some() implies empty_schema(lookup(tree, p).unwrap()) || exists|k: schema::Namespace| #[trigger] schemas@.contains_key(k) && k.components@ == p by {
            if !empty_schema(lookup(tree, p).unwrap()) {
                let i = choose|i: int| 0 <= i < __it0@.len() && (#[trigger] e0[i]).0.components@ == p;
                assert(schemas@.contains_key(*__it0@[i].0));
            }
        }
        assert(tree_of(tree, schemas@));
        assert forall|p: Seq<Identifier>| (#[trigger] lookup(tree, p)).is_some() implies schema_known(lookup(tree, p).unwrap()) by {
            if !empty_schema(lookup(tree, p).unwrap()) {
                let k = choose|k: schema::Namespace| #[trigger] schemas@.contains_key(k) && k.components@ == p;
                assert(lookup(tree, k.components@) == Some(schemas@[k].0));
            }
        }
        lemma_known(tree);
    }
@@ fn GEN::generate
    requires schemas_known(schemas@)
    ensures exists|m: Module| #[trigger] tree_of(m, schemas@) && output_of(r@.outline, m), r@.inside.is_none(),
@@ fn GEN::generate entry
    broadcast use text_lemmas;
    broadcast use axiom_height;
@@ fn GEN::generate attr
#[verifier::loop_isolation(false)]
@@ fn GEN::write_schema entry
    broadcast use lemma_field_known;
    enter(buffer, Ghost(namespace.components@), Ghost(*schema));
    let ghost b0 = buffer@;
@@ fn GEN::write_schema before Ok\( ?\( ?\) ?\)
    leave(buffer);
@@ fn GEN::write_schema loop 0 inv
    invariant
        forall|k: Identifier| #[trigger] schema.imports@.contains_key(k) ==> schema.imports@[k].namespace.is_some(),
        buffer@ == b0,
        forall|j: int| 0 <= j < __i0 ==> imports@.contains_key(*(#[trigger] __it0@[j]).0) && imports@[*__it0@[j].0] == schema.imports@[*__it0@[j].0].namespace.unwrap(),
        forall|k: Identifier| #[trigger] imports@.contains_key(k) ==> schema.imports@.contains_key(k),
        is_entries(__it0@, schema.imports@),
@@ fn GEN::write_schema loop 0 post
    proof { assert(imports@ =~= import_map(*schema)); }
@@ fn GEN::write_schema loop 1 inv
    invariant
        buffer@.inside == b0.inside, buffer@.outline == b0.outline, iter.wf(), iter.s == &schema.declarations,
        schema_known(*schema), imports@ == import_map(*schema),
        b0.inside == Some(Ctx { ns: namespace.components@, imports: import_map(*schema) }), indentation == namespace.components@.len(),
    ensures
        buffer@.inside == b0.inside, buffer@.outline == b0.outline,
    decreases iter.s@.len() - iter.pos
@@ fn GEN::write_schema loop rest inv
    invariant
        buffer@.inside == b0.inside, buffer@.outline == b0.outline, schema_known(*schema), imports@ == import_map(*schema),
        fields_known(imports@, declaration.fields@), *$IT == declaration.fields,
        b0.inside == Some(Ctx { ns: namespace.components@, imports: import_map(*schema) }), indentation == namespace.components@.len(),
@@ fn GEN::write_schema loop rest start
    broadcast use lemma_field_known;
@@ fn GEN::write_schema loop rest attr
#[verifier::loop_isolation(true)]
@@ fn GEN::write_schema subst
    schema\.declarations\.iter\(\)\.peekable\(\) ==> cursor(&schema.declarations)
@@ fn GEN::insert_schema subst
    namespace\.components\.iter\(\) ==> cursor(&namespace.components)
    iter\.cloned\(\)\.collect\(\) ==> iter.rest_cloned()
@@ fn GEN::generate sig
    -> String ==> -> (r: Buf)
@@ fn GEN::generate subst
    String::new\(\) ==> new_buf()
@@ fn GEN::write_indentation loop 0 pre
    proof { lemma_put_nothing(buffer@); }
@@ fn GEN::write_indentation loop 0 end
    proof { lemma_put(old(buffer)@, indent(__k0 as int), INDENTATION@); }
@@ fn GEN::write_indentation loop 0 inv
    invariant kept(buffer@, old(buffer)@), buffer@ == after_put(old(buffer)@, indent(__k0 as int)),
@@ fn GEN::write_schema attr
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] #[verifier::spinoff_prover]
@@ fn GEN::write_indentation attr
#[verifier::loop_isolation(false)]
@@ fn GEN::write_module_contents attr
#[verifier::loop_isolation(false)]
@@ fn GEN::write_module attr
#[verifier::loop_isolation(false)]
@@ fn GEN::write_module_contents loop 0 start
    proof {
        let k = *__it0@[__i0 as int].0;
        assert(children@.contains_key(k) && children@[k] == *__it0@[__i0 as int].1);
        axiom_height(*children, k);
        assert(tree_known(children@[k].children, children@[k].schema));
    }
