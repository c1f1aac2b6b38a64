// tokenizers: what the two overridable steps do to a text (one dynamic class at a time; each override is proved below its own name)
pub uninterp spec fn vnorm(s: Seq<i8>) -> Seq<i8>;
pub uninterp spec fn vtok(s: Seq<i8>) -> Seq<Seq<i8>>;
pub open spec fn tokens_of(s: Seq<i8>) -> Seq<Seq<i8>> { vtok(vnorm(s)) }
pub open spec fn join(t: Seq<Seq<i8>>) -> Seq<i8> decreases t.len() { if t.len() == 0 { Seq::empty() } else { join(t.drop_last()) + t.last() } }
pub open spec fn lower(s: Seq<i8>) -> Seq<i8> { Seq::new(s.len(), |i: int| to_lower(s[i] as int) as i8) }
pub open spec fn letters_digits(s: Seq<i8>) -> Seq<i8> { keep(s, |c: i8| is_alnum(c as int)) }
// what a list of identifiers spells: unknown ones nothing
pub open spec fn token_of(b: Map<i32, Seq<i8>>, id: i32) -> Seq<i8> { if b.dom().contains(id) { b[id] } else { Seq::empty() } }
pub open spec fn spell(b: Map<i32, Seq<i8>>, ids: Seq<i32>) -> Seq<i8> decreases ids.len() { if ids.len() == 0 { Seq::empty() } else { spell(b, ids.drop_last()) + token_of(b, ids.last()) } }
pub open spec fn ids_of(f: Map<Seq<i8>, i32>, t: Seq<Seq<i8>>) -> Seq<i32> { Seq::new(t.len(), |i: int| f[t[i]]) }
pub open spec fn number_all(f: Map<Seq<i8>, i32>, texts: Seq<Seq<i8>>) -> Map<Seq<i8>, i32> decreases texts.len() {
    if texts.len() == 0 { f } else { numbering(number_all(f, texts.drop_last()), tokens_of(texts.last())) }
}
pub open spec fn known(f: Map<Seq<i8>, i32>, t: Seq<Seq<i8>>) -> bool { forall|i: int| 0 <= i < t.len() ==> f.dom().contains(#[trigger] t[i]) }
pub open spec fn has_code(f: Map<Seq<i8>, i32>, c: i32) -> bool { exists|k: Seq<i8>| #[trigger] f.dom().contains(k) && f[k] == c }
pub open spec fn coded(f: Map<Seq<i8>, i32>, texts: Seq<Seq<i8>>, res: Seq<Seq<i32>>, n: int) -> bool {
    forall|k: int| 0 <= k < n ==> known(f, tokens_of(#[trigger] texts[k])) && res[k] == ids_of(f, tokens_of(texts[k]))
}
pub proof fn lemma_coded_step(f: Map<Seq<i8>, i32>, g: Map<Seq<i8>, i32>, texts: Seq<Seq<i8>>, res0: Seq<Seq<i32>>, res: Seq<Seq<i32>>, n: int)
    requires 0 <= n < texts.len(), coded(f, texts, res0, n), res0.len() == n, res == res0.push(ids_of(g, tokens_of(texts[n]))), known(g, tokens_of(texts[n])), extends(f, g)
    ensures coded(g, texts, res, n + 1)
{
    assert forall|k: int| 0 <= k < n + 1 implies known(g, tokens_of(#[trigger] texts[k])) && res[k] == ids_of(g, tokens_of(texts[k])) by {
        if k < n { assert(res[k] == res0[k]); lemma_ids_extend(f, g, tokens_of(texts[k])); }
    }
}
// a map onto 0..n-1
pub open spec fn onto(f: Map<Seq<i8>, i32>) -> bool {
    &&& forall|k: Seq<i8>| #[trigger] f.dom().contains(k) ==> 0 <= f[k] < f.dom().len()
    &&& injective(f)
    &&& forall|c: i32| 0 <= c < f.dom().len() ==> #[trigger] has_code(f, c)
}
pub open spec fn tables(f: Map<Seq<i8>, i32>, b: Map<i32, Seq<i8>>) -> bool { inverse(f, b) && b.dom().len() == f.dom().len() }
impl BaseTokenizer { pub open spec fn wf(&self) -> bool { tables(self.forward_coder_, self.backward_coder_) } }
pub proof fn lemma_range_len(s: Set<i32>, n: nat)
    requires forall|c: i32| #[trigger] s.contains(c) <==> 0 <= c < n, n < 0x7fff_ffff
    ensures s.len() == n
    decreases n
{
    if n == 0 { assert(s =~= Set::<i32>::empty()); }
    else {
        let c = (n - 1) as i32; assert(s.contains(c));
        let t = s.remove(c);
        assert forall|d: i32| #[trigger] t.contains(d) <==> 0 <= d < n - 1 by { assert(s.contains(d) <==> 0 <= d < n); }
        lemma_range_len(t, (n - 1) as nat);
    }
}
pub proof fn lemma_tables(f: Map<Seq<i8>, i32>, b: Map<i32, Seq<i8>>)
    requires inverse(f, b), f.dom().len() < 0x7fff_ffff
    ensures tables(f, b)
{
    assert forall|c: i32| #[trigger] b.dom().contains(c) <==> 0 <= c < f.dom().len() by { if b.dom().contains(c) { assert(f.dom().contains(b[c])); } }
    lemma_range_len(b.dom(), f.dom().len());
}
pub proof fn lemma_spell(f: Map<Seq<i8>, i32>, b: Map<i32, Seq<i8>>, t: Seq<Seq<i8>>)
    requires inverse(f, b), known(f, t)
    ensures spell(b, ids_of(f, t)) == join(t)
    decreases t.len()
{
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.drop_last().len() implies f.dom().contains(#[trigger] t.drop_last()[i]) by { assert(t.drop_last()[i] == t[i]); }
        lemma_spell(f, b, t.drop_last());
        assert(ids_of(f, t).drop_last() =~= ids_of(f, t.drop_last()));
        assert(f.dom().contains(t[t.len() - 1]));
    }
}
pub proof fn lemma_ids_extend(f: Map<Seq<i8>, i32>, g: Map<Seq<i8>, i32>, t: Seq<Seq<i8>>)
    requires extends(f, g), known(f, t)
    ensures known(g, t), ids_of(f, t) == ids_of(g, t)
{
    assert forall|i: int| 0 <= i < t.len() implies f[t[i]] == g[t[i]] && g.dom().contains(#[trigger] t[i]) by { assert(f.dom().contains(t[i])); }
    assert(ids_of(f, t) =~= ids_of(g, t));
}
pub proof fn lemma_spell_step(b: Map<i32, Seq<i8>>, ids: Seq<i32>, i: int)
    requires 0 <= i < ids.len()
    ensures spell(b, ids.subrange(0, i + 1)) == spell(b, ids.subrange(0, i)) + token_of(b, ids[i])
{ assert(ids.subrange(0, i + 1).drop_last() =~= ids.subrange(0, i)); }
pub proof fn lemma_number_all_step(f: Map<Seq<i8>, i32>, t: Seq<Seq<i8>>, i: int)
    requires 0 <= i < t.len()
    ensures number_all(f, t.subrange(0, i + 1)) == numbering(number_all(f, t.subrange(0, i)), tokens_of(t[i]))
{ assert(t.subrange(0, i + 1).drop_last() =~= t.subrange(0, i)); }
pub proof fn lemma_join_chars(s: Seq<i8>, t: Seq<Seq<i8>>)
    requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == seq![s[i]]
    ensures join(t) == s
    decreases s.len()
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] t.drop_last()[i] == seq![s.drop_last()[i]] by { assert(t[i] == seq![s[i]]); }
        lemma_join_chars(s.drop_last(), t.drop_last());
        assert(t[s.len() - 1] == seq![s[s.len() - 1]]);
        assert(join(t) =~= s);
    } else { assert(join(t) =~= s); }
}
// the maximal runs of non-spaces: token k lies at st[k]
pub open spec fn run_at(s: Seq<i8>, at: int, t: Seq<i8>) -> bool {
    &&& t.len() > 0 && 0 <= at && at + t.len() <= s.len()
    &&& t == s.subrange(at, at + t.len())
    &&& forall|j: int| at <= j < at + t.len() ==> #[trigger] s[j] != 32
    &&& at == 0 || s[at - 1] == 32
    &&& at + t.len() == s.len() || s[at + t.len()] == 32
}
pub open spec fn runs_before(s: Seq<i8>, n: int, t: Seq<Seq<i8>>, st: Seq<int>) -> bool {
    &&& t.len() == st.len()
    &&& forall|k: int| 0 <= k < t.len() ==> run_at(s, #[trigger] st[k], t[k]) && st[k] + t[k].len() <= n
    &&& forall|k: int, l: int| 0 <= k < l < t.len() ==> #[trigger] st[k] + t[k].len() < #[trigger] st[l]
    &&& forall|p: int| 0 <= p < n && #[trigger] s[p] != 32 ==> exists|k: int| 0 <= k < t.len() && #[trigger] st[k] <= p < st[k] + t[k].len()
}
pub open spec fn maximal_runs(s: Seq<i8>, t: Seq<Seq<i8>>) -> bool { exists|st: Seq<int>| runs_before(s, s.len() as int, t, st) }
